package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/sttp/goapi"

type Harness struct {
	Name    string
	Prop    string
	Rel     string // package directory relative to the repository
	File    string // overlay path
	Opts    map[string]string
	Doc     string
	Reaches []string
}

func (h *Harness) opt(k string, def int) int {
	if v, ok := h.Opts[k]; ok {
		n, err := strconv.Atoi(v)
		if err == nil {
			return n
		}
	}
	return def
}

type Loaded struct {
	repo, verif string
	overlay     map[string][]byte // path in repo -> content
	src         map[string]string // path in repo -> path in verif
	harnesses   []*Harness
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package // by rel dir
	uses        map[string][]string     // harness dir -> dirs whose support files it needs
	dropped     []string
	digest      string
}

var usesRe = regexp.MustCompile(`(?m)^//verif:uses (\S+)`)

// supportFile tells whether an overlay file is also part of the overlay of packages that use its package.
func supportFile(p string) bool {
	b := filepath.Base(p)
	return b == "zz_verif_vnd.go" || strings.HasPrefix(b, "zz_verif_support")
}

// part tells whether an overlay file belongs to the harnesses of the given directories.
func (l *Loaded) part(p string, rels map[string]bool) bool {
	r, _ := filepath.Rel(l.repo, filepath.Dir(p))
	if rels == nil || rels[r] {
		return true
	}
	if !supportFile(p) {
		return false
	}
	for rel := range rels {
		for _, u := range l.uses[rel] {
			if u == r {
				return true
			}
		}
	}
	return false
}

var reachRe = regexp.MustCompile(`vndReach\("([^"]+)"\)`)

// discover reads the harness files: /verif/harness/<pkg dir>/*.go.
func discover(repo, verif string) (*Loaded, error) {
	l := &Loaded{repo: repo, verif: verif, overlay: map[string][]byte{}, src: map[string]string{}, uses: map[string][]string{}, pkgs: map[string]*ssa.Package{}}
	root := filepath.Join(verif, "harness")
	tmpl, err := os.ReadFile(filepath.Join(root, "vnd.go.tmpl"))
	if err != nil {
		return nil, err
	}
	var files []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	for _, p := range files {
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		if rel == "." {
			continue
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, p, b, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		op := filepath.Join(repo, rel, "zz_verif_"+filepath.Base(p))
		l.overlay[op] = b
		l.src[op] = p
		for _, m := range usesRe.FindAllStringSubmatch(string(b), -1) {
			l.uses[rel] = append(l.uses[rel], m[1])
		}
		vp := filepath.Join(repo, rel, "zz_verif_vnd.go")
		if _, ok := l.overlay[vp]; !ok {
			l.overlay[vp] = []byte(strings.Replace(string(tmpl), "package PKG", "package "+af.Name.Name, 1))
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "VH_") {
				continue
			}
			parts := strings.SplitN(fd.Name.Name, "_", 3)
			h := &Harness{Name: fd.Name.Name, Prop: parts[1], Rel: rel, File: op, Opts: map[string]string{}}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					if strings.HasPrefix(t, "verif:") {
						for _, kv := range strings.Fields(strings.TrimPrefix(t, "verif:")) {
							k, v, _ := strings.Cut(kv, "=")
							if v == "" {
								v = "1"
							}
							h.Opts[k] = v
						}
					} else {
						h.Doc += strings.TrimSpace(t) + " "
					}
				}
			}
			body := string(b[fset.Position(fd.Pos()).Offset:fset.Position(fd.End()).Offset])
			for _, m := range reachRe.FindAllStringSubmatch(body, -1) {
				h.Reaches = append(h.Reaches, m[1])
			}
			l.harnesses = append(l.harnesses, h)
		}
	}
	return l, nil
}

// load type-checks the repository with the harness overlay (dropping harness files that no longer fit) and builds SSA.
func (l *Loaded) load(rels map[string]bool) error {
	for attempt := 0; ; attempt++ {
		ov := map[string][]byte{}
		var pats []string
		seen := map[string]bool{}
		for p, b := range l.overlay {
			if !l.part(p, rels) {
				continue
			}
			rel, _ := filepath.Rel(l.repo, filepath.Dir(p))
			ov[p] = b
			if !seen[rel] {
				seen[rel] = true
				pats = append(pats, "./"+rel)
			}
		}
		sort.Strings(pats)
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: l.repo, Overlay: ov, Env: os.Environ(), BuildFlags: []string{"-tags=math_big_pure_go"}}
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return err
		}
		bad := map[string]string{}
		var other []string
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				f := e.Pos
				if i := strings.Index(f, ":"); i > 0 {
					f = f[:i]
				}
				if _, ok := l.src[f]; ok {
					if bad[f] == "" {
						bad[f] = e.Error()
					}
				} else if strings.HasPrefix(p.PkgPath, modPath) {
					other = append(other, e.Error())
				}
			}
		})
		if len(bad) > 0 && attempt < 20 {
			for f, e := range bad {
				delete(l.overlay, f)
				l.dropped = append(l.dropped, fmt.Sprintf("%s: %s", strings.TrimPrefix(f, l.repo+"/"), e))
			}
			continue
		}
		if len(other) > 0 {
			return fmt.Errorf("repository does not type-check: %s", strings.Join(other[:1], "; "))
		}
		prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		prog.Build()
		l.prog = prog
		h := sha256.New()
		for i, p := range pkgs {
			if spkgs[i] == nil {
				return fmt.Errorf("no SSA for %s", p.PkgPath)
			}
			rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")
			l.pkgs[rel] = spkgs[i]
		}
		var files []string
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			if strings.HasPrefix(p.PkgPath, modPath) {
				for _, f := range p.GoFiles {
					if !strings.Contains(f, "zz_verif") {
						files = append(files, f)
					}
				}
			}
		})
		sort.Strings(files)
		for _, f := range files {
			b, _ := os.ReadFile(f)
			h.Write([]byte(f))
			h.Write(b)
		}
		l.digest = fmt.Sprintf("%x", h.Sum(nil))[:16]
		return nil
	}
}

// overlayFile writes the native overlay for one package and returns the JSON path.
func (l *Loaded) overlayFile(dir, rel string) (string, error) {
	rep := map[string]string{}
	i := 0
	var names []string
	pkgName := ""
	for p, b := range l.overlay {
		if !l.part(p, map[string]bool{rel: true}) {
			continue
		}
		fn := filepath.Join(dir, fmt.Sprintf("f%d_%s", i, filepath.Base(p)))
		i++
		if err := os.WriteFile(fn, b, 0o644); err != nil {
			return "", err
		}
		rep[p] = fn
	}
	for _, h := range l.harnesses {
		if h.Rel == rel {
			if _, ok := l.overlay[h.File]; ok {
				names = append(names, h.Name)
			}
		}
	}
	pkgName = l.pkgs[rel].Pkg.Name()
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\t\"testing\"\n)\n\n", pkgName)
	sb.WriteString("var vndTable = map[string]func(){\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: %s,\n", n, n)
	}
	sb.WriteString(`}

type vndCase struct {
	Harness string
	Inputs  map[string]uint64
}

func TestVerifReplay(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		t.Fatal(err)
	}
	var cases []vndCase
	if err := json.Unmarshal(b, &cases); err != nil {
		t.Fatal(err)
	}
	for i, c := range cases {
		fn := vndTable[c.Harness]
		if fn == nil {
			t.Fatal("no harness " + c.Harness)
		}
		fmt.Printf("\nVERIF-START case=%d\n", i)
		st, re := vndRunCase(fn, c.Inputs)
		fmt.Printf("\nVERIF-RESULT case=%d status=%q reach=%q\n", i, st, re)
	}
}
`)
	tf := filepath.Join(dir, "replay_test.go")
	if err := os.WriteFile(tf, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	rep[filepath.Join(l.repo, rel, "zz_verif_replay_test.go")] = tf
	for _, r := range append([]string{rel}, l.uses[rel]...) {
		if err := l.redirectNative(dir, r, r != rel, rep); err != nil {
			return "", err
		}
	}
	tests, _ := filepath.Glob(filepath.Join(l.repo, rel, "*_test.go"))
	for _, t := range tests {
		rep[t] = ""
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	oj := filepath.Join(dir, "overlay.json")
	return oj, os.WriteFile(oj, b, 0o644)
}

// redirectNative rewrites calls of pkg.Func in the sources of rel to vrn_pkg_Func where a harness defines it.
func (l *Loaded) redirectNative(dir, rel string, used bool, rep map[string]string) error {
	red := map[string]bool{}
	for n := range l.redirects(rel, used) {
		if strings.HasPrefix(n, "vrn_") {
			red[n] = true
		}
	}
	if len(red) == 0 {
		return nil
	}
	files, _ := filepath.Glob(filepath.Join(l.repo, rel, "*.go"))
	for i, p := range files {
		if _, ok := rep[p]; ok || strings.HasSuffix(p, "_test.go") {
			continue
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out, n := rewriteCalls(p, src, red)
		if n == 0 {
			continue
		}
		fn := filepath.Join(dir, fmt.Sprintf("r%d_%s_%s", i, filepath.Base(rel), filepath.Base(p)))
		if err := os.WriteFile(fn, out, 0o644); err != nil {
			return err
		}
		rep[p] = fn
	}
	return nil
}

func rewriteCalls(name string, src []byte, red map[string]bool) ([]byte, int) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return src, 0
	}
	type edit struct {
		from, to int
		text     string
	}
	var es []edit
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if s, ok := c.Fun.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok && x.Obj == nil {
					if k := "vrn_" + x.Name + "_" + s.Sel.Name; red[k] {
						es = append(es, edit{fset.Position(s.Pos()).Offset, fset.Position(s.End()).Offset, k})
						used["var _ = "+x.Name+"."+s.Sel.Name] = true
					}
				}
			}
		}
		return true
	})
	sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
	out := string(src)
	for _, e := range es {
		out = out[:e.from] + e.text + out[e.to:]
	}
	for u := range used {
		out += "\n" + u + "\n"
	}
	return []byte(out), len(es)
}

// redirects: the vrt_ and vrn_ helpers of a harness package; of a package merely used, those of its support files.
func (l *Loaded) redirects(rel string, used bool) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	pkg := l.pkgs[rel]
	if pkg == nil {
		return out
	}
	for n := range pkg.Members {
		if strings.HasPrefix(n, "vrt_") || strings.HasPrefix(n, "vrn_") {
			if f := pkg.Func(n); f != nil && (!used || supportFile(l.prog.Fset.Position(f.Pos()).Filename)) {
				out[n] = f
			}
		}
	}
	return out
}
