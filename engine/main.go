package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Job struct {
	h    *Harness
	part int
	res  *JobResult
}

type Witness struct {
	Label  string
	Inputs map[string]uint64
}

type JobResult struct {
	Violations []Violation
	Reach      map[string]bool
	Witnesses  []Witness
	Asserts    map[string]int
	Folded     int
	Notes      map[string]int
	Funcs      map[string]bool
	Steps      int64
	States     int64
	Paths      int64
	Merges     int64
	PathEnds   map[string]int64
	Stats      SolverStats
	Wall       float64
	TimedOut   bool
	Crash      string
}

type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Harness  string `json:"harness"`
	Kind     string `json:"kind"`
	Label    string `json:"label"`
	Func     string `json:"func,omitempty"` // substring of the position/stack of the failing call site
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadFindings(verif string) []Finding {
	var fs []Finding
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &fs); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(3)
	}
	return fs
}

func (f *Finding) matches(v *Violation) bool {
	if f.Status != "known" || (f.Harness != "" && f.Harness != v.Harness) || (f.Kind != "" && f.Kind != v.Kind) {
		return false
	}
	if f.Label != "" && !strings.Contains(v.Label, f.Label) {
		return false
	}
	if f.Func != "" && !strings.Contains(v.Pos, f.Func) && !strings.Contains(v.Stack, f.Func) {
		return false
	}
	return true
}

func runJob(l *Loaded, j *Job, tier int, deadline time.Time, known []Finding, trace bool) {
	t0 := time.Now()
	res := &JobResult{}
	j.res = res
	e := NewEngine(l.prog)
	defer func() {
		if r := recover(); r != nil {
			res.Crash = fmt.Sprintf("%v", r)
			if os.Getenv("VERIF_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", j.h.Name, r, debug.Stack())
			}
		}
		e.solver.Close()
		res.Violations = e.Violations
		res.Reach = e.Reach
		res.Witnesses = e.Witnesses
		res.Asserts = e.Asserts
		res.Folded = e.Folded
		res.Notes = e.Notes
		res.Funcs = e.Funcs
		res.Steps = e.Steps
		res.States = e.allStates
		res.Paths = e.Paths
		res.Merges = e.Merges
		res.PathEnds = e.PathEnds
		res.Stats = e.solver.stats
		res.TimedOut = e.timedOut
		res.Wall = time.Since(t0).Seconds()
	}()
	h := j.h
	e.harness = h.Name
	e.merging = h.opt("nomerge", 0) == 0
	e.unwind = h.opt("unwind", 64)
	e.preBound = h.opt("preempt", 2)
	if tier > 0 {
		e.preBound = h.opt("tpreempt", e.preBound)
	}
	e.maxConc = h.opt("maxconc", 300)
	e.fixedClock = h.Opts["clock"] == "fixed"
	e.part = j.part
	e.tier = tier
	e.trace = trace
	e.known = known
	if h.opt("qto", 0) > 0 {
		e.solver.timeout = time.Duration(h.opt("qto", 0)) * time.Millisecond
	}
	e.solver.hardTO = time.Duration(h.opt("hard", 60)) * time.Second
	if tier == 1 {
		e.solver.hardTO = time.Duration(h.opt("hard", 300)) * time.Second
	}
	to := h.opt("timeout", 240)
	if tier == 1 {
		to = h.opt("ttimeout", 3000)
	}
	e.deadline = time.Now().Add(time.Duration(to) * time.Second)
	if !deadline.IsZero() && deadline.Before(e.deadline) {
		e.deadline = deadline
	}
	e.solver.deadline = e.deadline.Add(20 * time.Second)
	pkg := l.pkgs[h.Rel]
	fn := pkg.Func(h.Name)
	if fn == nil {
		res.Crash = "harness function missing"
		return
	}
	e.ensureInit(pkg)
	// helper redirects: functions named vrt_<pkg>_<func> replace std functions; vrn_ ones also in the native run
	for _, u := range l.uses[h.Rel] {
		for n, f := range l.redirects(u, true) {
			e.redirects[vrtName(n)] = f
		}
	}
	for n, f := range l.redirects(h.Rel, false) {
		e.redirects[vrtName(n)] = f
	}
	if os.Getenv("VERIF_PROF") != "" {
		e.prof = map[string]int{}
		defer func() {
			type kv struct {
				k string
				n int
			}
			var l []kv
			for k, n := range e.prof {
				l = append(l, kv{k, n})
			}
			sort.Slice(l, func(a, b int) bool { return l[a].n > l[b].n })
			for i := 0; i < len(l) && i < 25; i++ {
				fmt.Fprintf(os.Stderr, "%8d %s\n", l[i].n, l[i].k)
			}
		}()
	}
	st := e.NewState()
	e.pushThread(st, &FuncV{fn: fn}, nil)
	e.run(st, stop{depth: 0})
}

// vrt_sort_Slice -> sort.Slice ; vrt_syncMap_Range -> (*sync.Map).Range
func vrtName(n string) string {
	p := strings.Split(n, "_")
	if len(p) != 3 {
		return n
	}
	switch p[1] {
	case "syncMap":
		return "(*sync.Map)." + p[2]
	case "timeTimer":
		return "(*time.Timer)." + p[2]
	case "syncPool":
		return "(*sync.Pool)." + p[2]
	case "netUDPConn":
		return "(*net.UDPConn)." + p[2]
	case "xmlDecoder":
		return "(*encoding/xml.Decoder)." + p[2]
	case "xml":
		return "encoding/xml." + p[2]
	case "crc32":
		return "hash/crc32." + p[2]
	case "aes", "cipher":
		return "crypto/" + p[1] + "." + p[2]
	case "transport":
		return "github.com/sttp/goapi/sttp/transport." + p[2]
	}
	return p[1] + "." + p[2]
}

type nativeResult struct {
	Status string
	Reach  string
}

type replayer struct {
	l    *Loaded
	dir  string
	bins map[string]string
	errs map[string]string
	mu   sync.Mutex
}

func (r *replayer) bin(rel string) (string, string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if b, ok := r.bins[rel]; ok {
		return b, r.errs[rel]
	}
	d := filepath.Join(r.dir, strings.ReplaceAll(rel, "/", "_"))
	os.MkdirAll(d, 0o755)
	oj, err := r.l.overlayFile(d, rel)
	out := filepath.Join(d, "replay.test")
	msg := ""
	if err == nil {
		cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", oj, "-o", out, "./"+rel)
		cmd.Dir = r.l.repo
		b, e2 := cmd.CombinedOutput()
		if e2 != nil {
			msg = string(b)
			if len(msg) > 600 {
				msg = msg[:600]
			}
			if msg == "" {
				msg = e2.Error()
			}
		}
	} else {
		msg = err.Error()
	}
	r.bins[rel] = out
	r.errs[rel] = msg
	return out, msg
}

type replayCase struct {
	Harness string
	Inputs  map[string]uint64
}

var assertRe = regexp.MustCompile(`VERIF-ASSERT ("(?:[^"\\]|\\.)*")`)
var resRe = regexp.MustCompile(`VERIF-RESULT case=(\d+) status=("(?:[^"\\]|\\.)*") reach=("(?:[^"\\]|\\.)*")`)

// run executes the cases natively; a crash of the process is attributed to the case it happened in.
func (r *replayer) run(rel string, cases []replayCase, timeout time.Duration) ([]nativeResult, string) {
	out := make([]nativeResult, len(cases))
	if len(cases) == 0 {
		return out, ""
	}
	bin, msg := r.bin(rel)
	if msg != "" {
		return nil, "native build failed: " + msg
	}
	return r.exec(bin, cases, timeout, nil)
}

func (r *replayer) exec(bin string, cases []replayCase, timeout time.Duration, env []string) ([]nativeResult, string) {
	out := make([]nativeResult, len(cases))
	b, _ := json.Marshal(cases)
	f, err := os.CreateTemp(r.dir, "case*.json")
	if err != nil {
		return nil, err.Error()
	}
	f.Write(b)
	f.Close()
	cmd := exec.Command("timeout", "-k", "2", strconv.Itoa(int(timeout.Seconds())+3), bin, "-test.run", "^TestVerifReplay$", "-test.timeout", strconv.Itoa(int(timeout.Seconds()))+"s")
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+f.Name(), "GOTRACEBACK=single", "GOMEMLIMIT=4GiB")
	cmd.Env = append(cmd.Env, env...)
	d := filepath.Join(r.dir, "cwd")
	os.MkdirAll(d, 0o755)
	cmd.Dir = d
	o, rerr := cmd.CombinedOutput()
	s := string(o)
	last := -1
	for _, m := range resRe.FindAllStringSubmatch(s, -1) {
		i, _ := strconv.Atoi(m[1])
		st, _ := strconv.Unquote(m[2])
		re, _ := strconv.Unquote(m[3])
		if i < len(out) {
			out[i] = nativeResult{st, re}
			last = i
		}
	}
	if rerr != nil && last+1 < len(out) {
		why := "crash"
		if m := assertRe.FindStringSubmatch(s[max(0, strings.LastIndex(s, "VERIF-START")):]); m != nil {
			lab, _ := strconv.Unquote(m[1])
			why = "assert:" + lab
		} else if i := strings.Index(s, "panic: "); i >= 0 {
			why = s[i:]
			if k := strings.IndexByte(why, '\n'); k > 0 {
				why = why[:k]
			}
			why = "panic:" + strings.TrimPrefix(why, "panic: ")
			if strings.Contains(why, "test timed out") {
				why = "deadlock"
			}
		} else if i := strings.Index(s, "fatal error: "); i >= 0 {
			why = s[i:]
			if k := strings.IndexByte(why, '\n'); k > 0 {
				why = why[:k]
			}
			if strings.Contains(why, "all goroutines are asleep") {
				why = "deadlock"
			}
		}
		out[last+1] = nativeResult{Status: why}
	}
	return out, ""
}

func confirmed(v *Violation, st string) bool {
	switch v.Kind {
	case "assert":
		// a native schedule may meet another assertion of the harness first
		return strings.HasPrefix(st, "assert:")
	case "panic":
		return strings.HasPrefix(st, "panic:") || strings.HasPrefix(st, "fatal error") || st == "crash"
	case "deadlock":
		return st == "deadlock"
	}
	return false
}

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine check|list|replay ...")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "list":
		l, err := discover("/repo", "/verif")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for _, h := range l.harnesses {
			fmt.Println(h.Prop, h.Name, h.Rel, h.Opts)
		}
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	default:
		os.Exit(3)
	}
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var rf struct {
		Harness, Rel string
		Inputs       map[string]uint64
		Sched        []int
		Switches     []Switch
	}
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	repoDir = strings.TrimSuffix(*repo, "/") + "/"
	l, err := discover(*repo, *verif)
	if err == nil {
		err = l.load(map[string]bool{rf.Rel: true})
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	dir, _ := os.MkdirTemp("", "verif-replay")
	defer os.RemoveAll(dir)
	r := &replayer{l: l, dir: dir, bins: map[string]string{}, errs: map[string]string{}}
	res, msg := r.run(rf.Rel, []replayCase{{rf.Harness, rf.Inputs}}, 30*time.Second)
	if msg != "" {
		fmt.Fprintln(os.Stderr, msg)
		return 3
	}
	if res[0].Status == "ok" && len(rf.Switches) > 0 {
		res[0].Status, _ = r.runSchedule(rf.Rel, replayCase{rf.Harness, rf.Inputs}, rf.Switches, func(s string) bool { return s != "ok" })
	}
	fmt.Printf("%s: %s (reached: %s)\n", rf.Harness, res[0].Status, res[0].Reach)
	if res[0].Status == "ok" {
		return 0
	}
	return 1
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "property id")
	tierS := fs.String("tier", "", "quick or thorough")
	only := fs.String("only", "", "only this harness (regexp)")
	trace := fs.Bool("trace", false, "")
	budget := fs.Int("budget", 0, "overall seconds")
	noEvid := fs.Bool("noevidence", false, "")
	workers := fs.Int("j", 8, "")
	fs.Parse(args)
	t0 := time.Now()
	if *tierS == "" {
		*tierS = os.Getenv("VERIF_TIER")
	}
	if *tierS != "thorough" {
		*tierS = "quick"
	}
	tier := 0
	bud := 700
	if *tierS == "thorough" {
		tier = 1
		bud = 9000
	}
	if *budget > 0 {
		bud = *budget
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	fail := func(f string, a ...interface{}) int {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
		return 3
	}
	repoDir = strings.TrimSuffix(*repo, "/") + "/"
	l, err := discover(*repo, *verif)
	if err != nil {
		return fail("discover: %v", err)
	}
	var hs []*Harness
	rels := map[string]bool{}
	var onlyRe *regexp.Regexp
	if *only != "" {
		onlyRe = regexp.MustCompile(*only)
	}
	for _, h := range l.harnesses {
		if *prop != "" && h.Prop != *prop {
			continue
		}
		if onlyRe != nil && !onlyRe.MatchString(h.Name) {
			continue
		}
		if tier == 0 && h.Opts["tier"] == "thorough" && onlyRe == nil {
			continue
		}
		hs = append(hs, h)
		rels[h.Rel] = true
	}
	if len(hs) == 0 {
		return fail("no harness for property %s", *prop)
	}
	if err := l.load(rels); err != nil {
		return fail("load: %v", err)
	}
	loadT := time.Since(t0)
	findings := loadFindings(*verif)
	var known []Finding
	for _, f := range findings {
		if f.Property == *prop || *prop == "" {
			known = append(known, f)
		}
	}
	var jobs []*Job
	var gone []string
	for _, h := range hs {
		if _, ok := l.overlay[h.File]; !ok {
			gone = append(gone, h.Name)
			continue
		}
		n := h.opt("parts", 1)
		if tier == 1 {
			n = h.opt("tparts", n)
		}
		for p := 0; p < n; p++ {
			jobs = append(jobs, &Job{h: h, part: p})
		}
	}
	deadline := t0.Add(time.Duration(bud) * time.Second)
	ch := make(chan *Job)
	var wg sync.WaitGroup
	for i := 0; i < *workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				runJob(l, j, tier, deadline, known, *trace)
			}
		}()
	}
	// longest first: jobs with larger weight
	sort.SliceStable(jobs, func(a, b int) bool { return jobs[a].h.opt("weight", 1) > jobs[b].h.opt("weight", 1) })
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	explT := time.Since(t0)

	dir, err := os.MkdirTemp("", "verif-replay")
	if err != nil {
		return fail("%v", err)
	}
	defer os.RemoveAll(dir)
	rp := &replayer{l: l, dir: dir, bins: map[string]string{}, errs: map[string]string{}}

	// 1. counterexamples: replay natively
	type conf struct {
		v    Violation
		rel  string
		nst  string
		path string
	}
	var confirmedV, unconfirmed []conf
	knownHit := map[int]bool{}
	validated := 0
	var mism []string
	seen := map[string]bool{}
	for _, j := range jobs {
		for _, v := range j.res.Violations {
			v := v
			sig := fmt.Sprint(j.h.Name, "|", v.Kind, "|", v.Label, "|", v.Pos)
			if seen[sig] {
				continue
			}
			in := v.Inputs
			in["part#0"] = uint64(j.part)
			in["tier#0"] = uint64(tier)
			var nr []nativeResult
			var msg string
			tries := 1
			if len(v.Sched) > 0 {
				tries = 5
			}
			st := ""
			for k := 0; k < tries; k++ {
				limit := 30 * time.Second
				if v.Kind == "deadlock" {
					limit = 8 * time.Second
				}
				nr, msg = rp.run(j.h.Rel, []replayCase{{j.h.Name, in}}, limit)
				if msg != "" {
					st = msg
					break
				}
				st = nr[0].Status
				if confirmed(&v, st) {
					break
				}
			}
			if !confirmed(&v, st) && len(v.Switches) > 0 {
				if s2, ok := rp.runSchedule(j.h.Rel, replayCase{j.h.Name, in}, v.Switches, func(s string) bool { return confirmed(&v, s) }); ok {
					st = s2
				} else if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Println("schedule replay:", s2, v.Switches)
				}
			}
			if v.Kind == "assert" && confirmed(&v, st) {
				v.Label = strings.TrimPrefix(st, "assert:")
			}
			c := conf{v: v, rel: j.h.Rel, nst: st}
			if confirmed(&v, st) {
				seen[sig] = true
				validated++
				isKnown := false
				for i := range known {
					if known[i].matches(&v) {
						knownHit[i] = true
						isKnown = true
					}
				}
				if !isKnown {
					confirmedV = append(confirmedV, c)
				}
			} else {
				unconfirmed = append(unconfirmed, c)
			}
		}
	}
	// 2. reachability witnesses: the same inputs must reach the same labels natively
	byRel := map[string][]replayCase{}
	byLab := map[string][]string{}
	for _, j := range jobs {
		for _, w := range j.res.Witnesses {
			w.Inputs["part#0"] = uint64(j.part)
			w.Inputs["tier#0"] = uint64(tier)
			if j.h.opt("noval", 0) == 1 {
				continue
			}
			byRel[j.h.Rel] = append(byRel[j.h.Rel], replayCase{j.h.Name, w.Inputs})
			byLab[j.h.Rel] = append(byLab[j.h.Rel], w.Label)
		}
	}
	var samples []interface{}
	for rel, cs := range byRel {
		nr, msg := rp.run(rel, cs, 120*time.Second)
		if msg != "" {
			mism = append(mism, msg)
			continue
		}
		for i, r := range nr {
			ok := false
			for _, x := range strings.Split(r.Reach, ",") {
				if x == byLab[rel][i] {
					ok = true
				}
			}
			if ok {
				validated++
				if len(samples) < 4 {
					samples = append(samples, map[string]interface{}{"harness": cs[i].Harness, "reached": byLab[rel][i], "inputs": brief(cs[i].Inputs), "native": r.Status})
				}
			} else {
				mism = append(mism, fmt.Sprintf("%s: witness for %q not reproduced natively (status %q)", cs[i].Harness, byLab[rel][i], r.Status))
			}
		}
	}

	// 3. report
	code := 0
	rdir := filepath.Join(*verif, "evidence", "replay")
	var vioOut []string
	for i, c := range confirmedV {
		os.MkdirAll(rdir, 0o755)
		p := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", c.v.Harness, i))
		b, _ := json.MarshalIndent(map[string]interface{}{"Harness": c.v.Harness, "Rel": c.rel, "Inputs": c.v.Inputs, "Sched": c.v.Sched, "Switches": c.v.Switches, "Kind": c.v.Kind, "Label": c.v.Label, "Pos": c.v.Pos, "Stack": c.v.Stack, "Native": c.nst}, "", " ")
		os.WriteFile(p, b, 0o644)
		h := c.v.Harness
		pid := strings.SplitN(h, "_", 3)[1]
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", pid, p)
		fmt.Println(line)
		fmt.Printf("  %s %s: %s at %s; native run: %s\n  inputs: %s\n", h, c.v.Kind, c.v.Label, c.v.Pos, c.nst, brief(c.v.Inputs))
		vioOut = append(vioOut, line)
		code = 1
	}
	for i := range known {
		if knownHit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", known[i].Property, known[i].What)
		}
	}
	for _, c := range unconfirmed {
		fmt.Printf("unconfirmed counterexample (not reported): %s %s %q at %s; native status %q; inputs %s\n", c.v.Harness, c.v.Kind, c.v.Label, c.v.Pos, c.nst, brief(c.v.Inputs))
		if os.Getenv("VERIF_DEBUG") != "" {
			fmt.Println("   ", c.v.Stack)
		}
	}
	funcs := map[string]bool{}
	notes := map[string]int{}
	var states, trans, paths, merges int64
	var q, qs, qu, qk int
	var st float64
	var hsum []map[string]interface{}
	asserts, folded := 0, 0
	var vac []string
	byH := map[string]map[string]interface{}{}
	for _, j := range jobs {
		r := j.res
		for f := range r.Funcs {
			funcs[f] = true
		}
		for n, c := range r.Notes {
			notes[n] += c
		}
		states += r.States + 1
		trans += r.Steps
		paths += r.Paths
		merges += r.Merges
		q += r.Stats.Queries
		qs += r.Stats.Sat
		qu += r.Stats.Unsat
		qk += r.Stats.Unknown
		st += r.Stats.Time.Seconds()
		folded += r.Folded
		for _, c := range r.Asserts {
			asserts += c
		}
		m := byH[j.h.Name]
		if m == nil {
			m = map[string]interface{}{"harness": j.h.Name, "what": strings.TrimSpace(j.h.Doc), "options": j.h.Opts, "wall_s": 0.0, "steps": int64(0), "states": int64(0), "queries": 0, "complete": true, "reach": map[string]bool{}, "ends": map[string]int64{}}
			byH[j.h.Name] = m
			hsum = append(hsum, m)
		}
		m["wall_s"] = m["wall_s"].(float64) + r.Wall
		m["steps"] = m["steps"].(int64) + r.Steps
		m["states"] = m["states"].(int64) + r.States + 1
		m["queries"] = m["queries"].(int) + r.Stats.Queries
		if r.TimedOut || r.Crash != "" || r.PathEnds["unsupported"] > 0 || r.PathEnds["unwind"] > 0 {
			m["complete"] = false
		}
		for k, v := range r.PathEnds {
			m["ends"].(map[string]int64)[k] += v
		}
		if r.Crash != "" {
			notes["engine error in "+j.h.Name+": "+r.Crash]++
		}
		if r.TimedOut {
			notes["time or step limit reached in "+j.h.Name+" (exploration incomplete)"]++
		}
		for k := range r.Reach {
			m["reach"].(map[string]bool)[k] = true
		}
	}
	for _, h := range hs {
		m := byH[h.Name]
		if m == nil {
			continue
		}
		for _, lab := range h.Reaches {
			if !m["reach"].(map[string]bool)[lab] {
				vac = append(vac, h.Name+":"+lab)
			}
		}
	}
	complete := len(gone) == 0 && len(vac) == 0
	for _, m := range hsum {
		if m["complete"] == false {
			complete = false
		}
	}
	var reduced []string
	for n, c := range notes {
		reduced = append(reduced, fmt.Sprintf("%s (x%d)", n, c))
	}
	sort.Strings(reduced)
	for _, d := range l.dropped {
		reduced = append(reduced, "harness file does not fit the current source and was left out: "+d)
	}
	for _, m := range mism {
		reduced = append(reduced, "validation mismatch: "+m)
	}
	for _, v := range vac {
		reduced = append(reduced, "reachability label not reached: "+v)
	}
	for _, c := range unconfirmed {
		reduced = append(reduced, fmt.Sprintf("counterexample not reproduced natively: %s %s %s", c.v.Harness, c.v.Kind, c.v.Label))
	}
	if len(samples) == 0 {
		samples = append(samples, "no witness replayed in this run")
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tierS, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"explanation":       "symbolic states and SSA instructions executed by the bounded symbolic executor; every harness is explored over all values of its symbolic inputs within the bounds named in its description; witnesses and counterexamples are re-executed natively",
			"functions_encoded": sortedKeys(funcs), "source_digest": l.digest, "harnesses": hsum,
			"queries": q, "queries_sat": qs, "queries_unsat": qu, "queries_unknown": qk, "solver_time_s": st,
			"paths_completed": paths, "merges": merges, "assertions_evaluated": asserts, "assertions_decided_by_rewriting": folded, "exhaustive": complete,
			"reduced": reduced, "harnesses_left_out": gone,
			"load_s": loadT.Seconds(), "explore_s": explT.Seconds(),
		},
		"assumptions": []string{"bounds and stubs as listed in DESIGN.md for this property", "amd64 integer and floating-point semantics", "solver verdicts of z3 4.8.12 (fall-back z3 5.x, cvc5)"},
		"wall_s":      time.Since(t0).Seconds(), "violations": len(confirmedV),
	}
	if !*noEvid && *prop != "" && *only == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), b, 0o644); err != nil {
			return fail("%v", err)
		}
	}
	fmt.Printf("property=%s tier=%s harnesses=%d jobs=%d states=%d steps=%d queries=%d (sat %d, unsat %d, unknown %d) solver=%.1fs validated=%d complete=%v wall=%.1fs\n", *prop, *tierS, len(hs), len(jobs), states, trans, q, qs, qu, qk, st, validated, complete, time.Since(t0).Seconds())
	for _, m := range hsum {
		fmt.Printf("  %-44s steps=%-9v states=%-7v q=%-6v wall=%.1f complete=%v ends=%v\n", m["harness"], m["steps"], m["states"], m["queries"], m["wall_s"], m["complete"], m["ends"])
	}
	for _, r := range reduced {
		fmt.Println("  note:", r)
	}
	return code
}

func brief(m map[string]uint64) string {
	ks := sortedKeys(m)
	var sb strings.Builder
	for i, k := range ks {
		if i > 60 {
			sb.WriteString("…")
			break
		}
		fmt.Fprintf(&sb, "%s=%#x ", k, m[k])
	}
	return strings.TrimSpace(sb.String())
}
