package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Replay of a schedule: the sources of the native run are instrumented (through the overlay) at the places where the
// schedule of a counterexample preempts a goroutine or first runs one. Each such point sleeps until the time slot in
// which the schedule resumes its goroutine.

// Switch is one change of the running goroutine. Pos is empty when the goroutine blocked or ended by itself.
type Switch struct {
	From, To int
	Pos      string // where From was preempted
	Entry    string // first statement of To
	Visit    int    // how many times the place had been passed, this time included

	at *visit
}

// visit is one visible operation of a run, in reverse order.
type visit struct {
	prev  *visit
	tid   int
	fn    *ssa.Function
	instr ssa.Instruction
}

// visited records the visible operation the current goroutine is about to perform.
func (e *Engine) visited(st *State) {
	t := st.threads[st.cur]
	for i := len(t.frames) - 1; i >= 0; i-- {
		f := t.frames[i]
		in, ok := e.inRepo[f.fi.fn]
		if !ok {
			in = strings.HasPrefix(e.fset.Position(f.fi.fn.Pos()).Filename, repoDir)
			e.inRepo[f.fi.fn] = in
		}
		if in && f.pc < len(f.block.Instrs) {
			ins := f.block.Instrs[f.pc]
			if v := st.visits; v == nil || v.instr != ins || v.tid != st.cur {
				st.visits = &visit{st.visits, st.cur, f.fi.fn, ins}
			}
			return
		}
	}
}

// countVisits fills in how often the place of each preemption was passed before.
func (e *Engine) countVisits(sw []Switch) []Switch {
	out := append([]Switch(nil), sw...)
	for i := range out {
		if out[i].Pos == "" {
			continue
		}
		var vs []*visit
		for v := out[i].at; v != nil; v = v.prev {
			vs = append(vs, v)
		}
		last := map[int]string{}
		n := 0
		for k := len(vs) - 1; k >= 0; k-- {
			p := ""
			for b := vs[k].instr.Block(); p == ""; {
				for j := indexOf(b, vs[k].instr); j >= 0 && p == ""; j-- {
					if q := b.Instrs[j].Pos(); q.IsValid() {
						ps := e.fset.Position(q)
						p = fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
					}
				}
				break
			}
			if p == out[i].Pos && last[vs[k].tid] != p {
				n++
			}
			last[vs[k].tid] = p
		}
		if last[out[i].From] != out[i].Pos {
			n++
		}
		out[i].Visit = n
	}
	return out
}

func indexOf(b *ssa.BasicBlock, x ssa.Instruction) int {
	for i, y := range b.Instrs {
		if x == y {
			return i
		}
	}
	return -1
}

// repoPos: innermost position of the current goroutine in the repository or a harness.
func (e *Engine) repoPos(st *State) string {
	t := st.threads[st.cur]
	for i := len(t.frames) - 1; i >= 0; i-- {
		f := t.frames[i]
		fp := e.fset.Position(f.fi.fn.Pos()).Filename
		if !strings.HasPrefix(fp, repoDir) {
			continue
		}
		for k := f.pc; k >= 0; k-- {
			if k < len(f.block.Instrs) {
				if p := f.block.Instrs[k].Pos(); p.IsValid() {
					ps := e.fset.Position(p)
					return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
				}
			}
		}
	}
	return ""
}

func (e *Engine) entryPos(st *State, i int) string {
	t := st.threads[i]
	if i == 0 || len(t.frames) == 0 {
		return ""
	}
	p := e.fset.Position(t.frames[0].fi.fn.Pos())
	if !strings.HasPrefix(p.Filename, repoDir) {
		return ""
	}
	return fmt.Sprintf("%s:%d", p.Filename, p.Line)
}

type point struct {
	file  string
	line  int
	entry bool
	slot  int
	visit int
}

func schedulePoints(sw []Switch) []point {
	var out []point
	started := map[int]bool{0: true}
	add := func(pos string, entry bool, slot, visit int) {
		k := strings.LastIndexByte(pos, ':')
		if k < 0 {
			return
		}
		n, _ := strconv.Atoi(pos[k+1:])
		out = append(out, point{pos[:k], n, entry, slot, visit})
	}
	for k, s := range sw {
		if !started[s.To] {
			started[s.To] = true
			add(s.Entry, true, k+1, 0)
		}
		if s.Pos != "" {
			slot := len(sw) + 2
			for j := k + 1; j < len(sw); j++ {
				if sw[j].To == s.From {
					slot = j + 1
					break
				}
			}
			add(s.Pos, false, slot, s.Visit)
		}
	}
	return out
}

// instrument returns the files to replace for the given points; equal places share an index.
func (l *Loaded) instrument(pts []point, rep map[string]string) (map[string][]byte, []int, error) {
	byFile := map[string][]int{}
	for i, p := range pts {
		byFile[p.file] = append(byFile[p.file], i)
	}
	out := map[string][]byte{}
	ids := make([]int, len(pts))
	next := 0
	pkgs := map[string]string{}
	for file, idx := range byFile {
		src, ok := l.overlay[file]
		if !ok {
			from := file
			if r := rep[file]; r != "" {
				from = r // already rewritten; line numbers are unchanged
			}
			var err error
			if src, err = os.ReadFile(from); err != nil {
				return nil, nil, err
			}
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			return nil, nil, err
		}
		pkgs[filepath.Dir(file)] = f.Name.Name
		ins := map[int]int{} // offset -> id
		for _, i := range idx {
			offs := findPlaces(fset, f, pts[i])
			if len(offs) == 0 {
				ids[i] = -1
				continue
			}
			id, ok := ins[offs[0]]
			if !ok {
				id = next
				next++
				for _, o := range offs {
					ins[o] = id
				}
			}
			ids[i] = id
		}
		var os []int
		for o := range ins {
			os = append(os, o)
		}
		sort.Sort(sort.Reverse(sort.IntSlice(os)))
		s := string(src)
		for _, o := range os {
			s = s[:o] + fmt.Sprintf(" vndPoint(%d); ", ins[o]) + s[o:]
		}
		out[file] = []byte(s)
	}
	for dir, name := range pkgs {
		out[filepath.Join(dir, "zz_verif_point.go")] = []byte("package " + name + pointSrc)
	}
	return out, ids, nil
}

const pointSrc = `

import (
	"os"
	"strconv"
	"strings"
	"sync"
	"time"
)

var vndPtMu sync.Mutex
var vndPtCnt = map[int]int{}

func vndPoint(id int) {
	vndPtMu.Lock()
	vndPtCnt[id]++
	n := vndPtCnt[id]
	vndPtMu.Unlock()
	t0, _ := strconv.ParseInt(os.Getenv("VERIF_T0"), 10, 64)
	for _, e := range strings.Split(os.Getenv("VERIF_POINTS"), ",") {
		p := strings.Split(e, ":")
		if len(p) != 3 {
			continue
		}
		if k, _ := strconv.Atoi(p[0]); k != id {
			continue
		}
		if v, _ := strconv.Atoi(p[1]); v != n {
			continue
		}
		ms, _ := strconv.Atoi(p[2])
		time.Sleep(time.Until(time.Unix(0, t0).Add(time.Duration(ms) * time.Millisecond)))
	}
}
`

// findPlaces: offsets at which code runs right before the statement of the point, or at the start of its function.
func findPlaces(fset *token.FileSet, f *ast.File, p point) []int {
	line := func(x token.Pos) int { return fset.Position(x).Line }
	off := func(x token.Pos) int { return fset.Position(x).Offset }
	if p.entry {
		best := -1
		ast.Inspect(f, func(n ast.Node) bool {
			var b *ast.BlockStmt
			switch x := n.(type) {
			case *ast.FuncDecl:
				if line(x.Name.Pos()) == p.line {
					b = x.Body
				}
			case *ast.FuncLit:
				if line(x.Pos()) == p.line {
					b = x.Body
				}
			}
			if b != nil {
				best = off(b.Lbrace) + 1
			}
			return true
		})
		if best < 0 {
			return nil
		}
		return []int{best}
	}
	var best ast.Stmt
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if line(s.Pos()) <= p.line && p.line <= line(s.End()) {
				if best == nil || s.Pos() >= best.Pos() {
					best = s
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	if best == nil {
		return nil
	}
	out := []int{off(best.Pos())}
	if fs, ok := best.(*ast.ForStmt); ok && p.line < line(fs.Body.Lbrace)+1 {
		out = append(out, off(fs.Body.Rbrace))
	}
	return out
}

const slotMs = 40

// runSchedule replays one case under the schedule of a counterexample; confirm is asked after each attempt.
func (r *replayer) runSchedule(rel string, c replayCase, sw []Switch, confirm func(string) bool) (string, bool) {
	pts := schedulePoints(sw)
	if len(pts) == 0 {
		return "", false
	}
	d, err := os.MkdirTemp(r.dir, "sched")
	if err != nil {
		return err.Error(), false
	}
	oj, err := r.l.overlayFile(d, rel)
	if err != nil {
		return err.Error(), false
	}
	var ov struct{ Replace map[string]string }
	b, _ := os.ReadFile(oj)
	json.Unmarshal(b, &ov)
	files, ids, err := r.l.instrument(pts, ov.Replace)
	if err != nil {
		return err.Error(), false
	}
	i := 0
	for p, src := range files {
		fn := filepath.Join(d, fmt.Sprintf("p%d_%s", i, filepath.Base(p)))
		i++
		os.WriteFile(fn, src, 0o644)
		ov.Replace[p] = fn
	}
	b, _ = json.Marshal(ov)
	os.WriteFile(oj, b, 0o644)
	bin := filepath.Join(d, "replay.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", oj, "-o", bin, "./"+rel)
	cmd.Dir = r.l.repo
	if o, err := cmd.CombinedOutput(); err != nil {
		return "instrumented build failed: " + string(o), false
	}
	visits := make([]int, len(pts))
	for k := range visits {
		visits[k] = 1
		for j := 0; j < k; j++ {
			if ids[j] == ids[k] {
				visits[k]++
			}
		}
		if pts[k].visit > 0 {
			visits[k] = pts[k].visit
		}
	}
	base := append([]int(nil), visits...)
	try := func() string {
		var env []string
		for k, p := range pts {
			if ids[k] >= 0 {
				env = append(env, fmt.Sprintf("%d:%d:%d", ids[k], visits[k], p.slot*slotMs))
			}
		}
		nr, msg := r.exec(bin, []replayCase{c}, 8*time.Second, []string{"VERIF_POINTS=" + strings.Join(env, ",")})
		if msg != "" {
			return msg
		}
		return nr[0].Status
	}
	st := ""
	t0 := time.Now()
	// the place may be passed several times before the preemption
	for total := 0; total <= 8; total++ {
		var rec func(k, left int) bool
		rec = func(k, left int) bool {
			if time.Since(t0) > 40*time.Second {
				return false
			}
			if k == len(pts) {
				if left > 0 {
					return false
				}
				st = try()
				return confirm(st)
			}
			if pts[k].entry || ids[k] < 0 {
				return rec(k+1, left)
			}
			for v := 0; v <= left; v++ {
				// later visits first, then earlier ones
				visits[k] = base[k] + (v+1)/2*(v%2*2-1)
				if visits[k] > 0 && rec(k+1, left-v) {
					return true
				}
			}
			visits[k] = base[k]
			return false
		}
		if rec(0, total) {
			return st, true
		}
	}
	return st, false
}

// repoDir is the directory of the code under check, with a slash.
var repoDir = "/repo/"
