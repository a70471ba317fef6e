package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type SolverStats struct {
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	OneShots int
	Time     time.Duration
}

// Solver drives one incremental z3 process by pipe, with a one-shot portfolio as fall-back.
type Solver struct {
	ctx      *Ctx
	cmd      *exec.Cmd
	in       *bufio.Writer
	inRaw    io.WriteCloser
	out      *bufio.Reader
	emitted  map[*Term]bool
	declared map[string]bool
	stack    []*Term
	stats    SolverStats
	timeout  time.Duration // incremental per-query
	hardTO   time.Duration // one-shot
	dead     bool
	errLine  string
	deadline time.Time
}

func NewSolver(c *Ctx) *Solver {
	s := &Solver{ctx: c, timeout: 4 * time.Second, hardTO: 60 * time.Second}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3", "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.emitted = map[*Term]bool{}
	s.declared = map[string]bool{}
	s.stack = nil
	s.dead = false
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeout.Milliseconds())
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(w int) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(w) + ")"
}

func quote(n string) string { return "|" + n + "|" }

func constStr(t *Term) string {
	switch t.op {
	case OpTrue:
		return "true"
	case OpFalse:
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", t.w/4, t.k)
	}
	return fmt.Sprintf("#b%0*b", t.w, t.k)
}

func ref(t *Term) string {
	switch t.op {
	case OpConst, OpTrue, OpFalse:
		return constStr(t)
	case OpVar:
		return quote(t.name)
	}
	return "t" + strconv.Itoa(t.id)
}

func fpSort(w int) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func toFP(t *Term) string { return "((_ to_fp " + fpSort(t.w) + ") " + ref(t) + ")" }

func body(t *Term) string {
	a := t.args
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k>>16, t.k&0xffff, ref(a[0]))
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-a[0].w, ref(a[0]))
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-a[0].w, ref(a[0]))
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		n := map[Op]string{OpFAdd: "fp.add", OpFSub: "fp.sub", OpFMul: "fp.mul", OpFDiv: "fp.div"}[t.op]
		return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", n, toFP(a[0]), toFP(a[1]))
	case OpFRound:
		return fmt.Sprintf("(fp.to_ieee_bv (fp.roundToIntegral %s %s))", []string{"RTN", "RTP", "RTZ", "RNA"}[t.k], toFP(a[0]))
	case OpFSqrt:
		return fmt.Sprintf("(fp.to_ieee_bv (fp.sqrt RNE %s))", toFP(a[0]))
	case OpFLt:
		return fmt.Sprintf("(fp.lt %s %s)", toFP(a[0]), toFP(a[1]))
	case OpFLe:
		return fmt.Sprintf("(fp.leq %s %s)", toFP(a[0]), toFP(a[1]))
	case OpFEq:
		return fmt.Sprintf("(fp.eq %s %s)", toFP(a[0]), toFP(a[1]))
	case OpFToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), toFP(a[0]))
	case OpFToSI:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, toFP(a[0]))
	case OpFToUI:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, toFP(a[0]))
	case OpSIToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), ref(a[0]))
	case OpUIToF:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), ref(a[0]))
	case OpUF:
		if len(a) == 0 {
			return quote(ufName(t))
		}
		var sb strings.Builder
		sb.WriteString("(" + quote(ufName(t)))
		for _, x := range a {
			sb.WriteString(" " + ref(x))
		}
		sb.WriteString(")")
		return sb.String()
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.op])
	for _, x := range a {
		sb.WriteString(" " + ref(x))
	}
	sb.WriteString(")")
	return sb.String()
}

func ufName(t *Term) string {
	n := t.name + "_" + strconv.Itoa(t.w)
	for _, a := range t.args {
		n += "_" + strconv.Itoa(a.w)
	}
	return n
}

func emit(w io.Writer, t *Term, emitted map[*Term]bool, declared map[string]bool) {
	if t.IsConst() || emitted[t] {
		return
	}
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if emitted[f.t] || f.t.IsConst() {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if !emitted[a] && !a.IsConst() {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		emitted[x] = true
		st = st[:len(st)-1]
		switch x.op {
		case OpVar:
			fmt.Fprintf(w, "(declare-const %s %s)\n", quote(x.name), sortName(x.w))
		case OpUF:
			n := ufName(x)
			if !declared[n] {
				declared[n] = true
				var as []string
				for _, a := range x.args {
					as = append(as, sortName(a.w))
				}
				fmt.Fprintf(w, "(declare-fun %s (%s) %s)\n", quote(n), strings.Join(as, " "), sortName(x.w))
			}
			fallthrough
		default:
			fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", x.id, sortName(x.w), body(x))
		}
	}
}

// support collects the variables and UF applications below the given terms.
func support(ts []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var st []*Term
	st = append(st, ts...)
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[t] {
			continue
		}
		seen[t] = true
		if (t.op == OpVar || t.op == OpUF) && t.w <= 64 {
			out = append(out, t)
		}
		st = append(st, t.args...)
	}
	return out
}

// Check decides satisfiability of the conjunction of pc and extra.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (Result, *Model) {
	t0 := time.Now()
	defer func() { s.stats.Time += time.Since(t0) }()
	s.stats.Queries++
	r, m := s.check1(pc, extra, wantModel)
	if r == Unknown {
		all := pc
		if extra != nil {
			all = append(append([]*Term(nil), pc...), extra)
		}
		r, m = s.oneShot(all, wantModel)
	}
	if d := os.Getenv("VERIF_SLOW"); d != "" && time.Since(t0) > 5*time.Second {
		dumpQuery(d, append(append([]*Term(nil), pc...), extra), r, time.Since(t0))
	}
	switch r {
	case Sat:
		s.stats.Sat++
	case Unsat:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
	return r, m
}

// dumpQuery keeps a slow query for inspection.
func dumpQuery(dir string, all []*Term, r Result, d time.Duration) {
	f, err := os.CreateTemp(dir, "q*.smt2")
	if err != nil {
		return
	}
	defer f.Close()
	fmt.Fprintf(f, "; %v in %v\n(set-logic ALL)\n", r, d)
	em, de := map[*Term]bool{}, map[string]bool{}
	for _, t := range all {
		if t != nil {
			emit(f, t, em, de)
			fmt.Fprintf(f, "(assert %s)\n", ref(t))
		}
	}
	fmt.Fprintf(f, "(check-sat)\n")
}

func (s *Solver) check1(pc []*Term, extra *Term, wantModel bool) (Result, *Model) {
	if s.cmd == nil || s.dead {
		s.Close()
		s.start()
	}
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if n < len(s.stack) {
		fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		emit(s.in, t, s.emitted, s.declared)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", ref(t))
		s.stack = append(s.stack, t)
	}
	if extra != nil {
		emit(s.in, extra, s.emitted, s.declared)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", ref(extra))
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.dead = true
		return Unknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.dead = true
		return Unknown, nil
	}
	res := Unknown
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
	default:
		s.errLine = line
		s.dead = true
		return Unknown, nil
	}
	var m *Model
	if res == Sat && wantModel {
		ts := append([]*Term(nil), pc...)
		if extra != nil {
			ts = append(ts, extra)
		}
		m = s.getModel(support(ts))
	}
	if extra != nil {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	return res, m
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) getModel(vars []*Term) *Model {
	m := &Model{vals: map[*Term]uint64{}}
	if len(vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		sb.WriteString(ref(v) + " ")
	}
	sb.WriteString("))\n")
	fmt.Fprint(s.in, sb.String())
	if err := s.in.Flush(); err != nil {
		s.dead = true
		return nil
	}
	txt, err := readSexp(s.out)
	if err != nil {
		s.dead = true
		return nil
	}
	if !parseModel(txt, vars, m) {
		s.errLine = txt
		return nil
	}
	return m
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	inq := false
	for {
		b, err := r.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		sb.WriteByte(b)
		switch b {
		case '|':
			inq = !inq
		case '(':
			if !inq {
				depth++
				started = true
			}
		case ')':
			if !inq {
				depth--
			}
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func parseModel(txt string, vars []*Term, m *Model) bool {
	toks := tokenize(txt)
	if len(toks) < 2 || toks[1] == "error" {
		return false
	}
	// ( ( name val ) ( name val ) ... ) in request order
	i := 1
	for _, v := range vars {
		if i+3 >= len(toks) || toks[i] != "(" {
			return false
		}
		i += 2 // "(" name
		val, n := parseVal(toks[i:])
		if n == 0 {
			return false
		}
		m.vals[v] = val
		i += n
		if toks[i] != ")" {
			return false
		}
		i++
	}
	return true
}

func parseVal(t []string) (uint64, int) {
	switch {
	case t[0] == "true":
		return 1, 1
	case t[0] == "false":
		return 0, 1
	case strings.HasPrefix(t[0], "#x"):
		v, _ := strconv.ParseUint(t[0][2:], 16, 64)
		return v, 1
	case strings.HasPrefix(t[0], "#b"):
		v, _ := strconv.ParseUint(t[0][2:], 2, 64)
		return v, 1
	case t[0] == "(" && len(t) > 4 && t[1] == "_" && strings.HasPrefix(t[2], "bv"):
		v, _ := strconv.ParseUint(t[2][2:], 10, 64)
		return v, 5
	}
	return 0, 0
}

func (s *Solver) oneShot(all []*Term, wantModel bool) (Result, *Model) {
	s.stats.OneShots++
	fp := false
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n")
	sb.WriteString("(set-logic ALL)\n")
	em := map[*Term]bool{}
	de := map[string]bool{}
	for _, t := range all {
		if t.hasFP {
			fp = true
		}
		emit(&sb, t, em, de)
		fmt.Fprintf(&sb, "(assert %s)\n", ref(t))
	}
	sb.WriteString("(check-sat)\n")
	vars := support(all)
	if wantModel && len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(ref(v) + " ")
		}
		sb.WriteString("))\n")
	}
	script := sb.String()
	cmds := [][]string{{"z3", "-in", "-smt2"}, {"z3-new", "-in", "-smt2"}}
	if !fp {
		cmds = append(cmds, []string{"cvc5", "--lang=smt2", "-"})
	}
	hard := s.hardTO
	if !s.deadline.IsZero() {
		if r := time.Until(s.deadline); r < hard {
			hard = r
		}
		if hard < time.Second {
			return Unknown, nil
		}
	}
	cx, cancel := context.WithTimeout(context.Background(), hard)
	defer cancel()
	type ans struct {
		r Result
		m *Model
	}
	ch := make(chan ans, len(cmds))
	for _, c := range cmds {
		go func(c []string) {
			cmd := exec.CommandContext(cx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(script)
			out, _ := cmd.Output()
			o := string(out)
			a := ans{r: Unknown}
			if strings.HasPrefix(o, "unsat") {
				a.r = Unsat
			} else if strings.HasPrefix(o, "sat") {
				a.r = Sat
				a.m = &Model{vals: map[*Term]uint64{}}
				if wantModel && len(vars) > 0 {
					if !parseModel(strings.TrimSpace(o[3:]), vars, a.m) {
						a.m = nil
					}
				}
			}
			ch <- a
		}(c)
	}
	for range cmds {
		a := <-ch
		if a.r == Unsat || (a.r == Sat && (!wantModel || a.m != nil)) {
			return a.r, a.m
		}
	}
	return Unknown, nil
}
