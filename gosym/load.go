package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	zzPath  = "itko.dev/internal/zzsym"
	goRoot  = "/opt/veriftools/go1.23.12"
	modPath = "itko.dev"
)

// Both can be moved for development (mutation runs on copies); the registered commands use the defaults.
var repoDir = envOr("GOSYM_REPO", "/repo")
var verifDir = envOr("GOSYM_VERIF", "/verif")

func envOr(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

// Engine is the loaded program under test.
type Engine struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	mu      sync.Mutex
	rtErr   types.Type
	models  map[string]*ssa.Function
	intr    map[string]Intrinsic
	loadDur time.Duration
	harness map[string]*ssa.Function // package path + "." + function name
	overlay map[string]string        // repo path -> file in /verif
	sfuncs  map[string]bool
}

var modOnce sync.Once
var modDir string

// modFile is a copy of /repo's go.mod (and go.sum beside it), so that the go command leaves the original alone although
// harnesses import packages of modules that /repo needs only indirectly.
func modFile() string {
	modOnce.Do(func() {
		d, err := os.MkdirTemp("", "gosym-mod-")
		if err != nil {
			fatal(err)
		}
		modDir = d
		for _, f := range []string{"go.mod", "go.sum"} {
			b, err := os.ReadFile(filepath.Join(repoDir, f))
			if err == nil {
				err = os.WriteFile(filepath.Join(d, f), b, 0644)
			}
			if err != nil {
				fatal(err)
			}
		}
	})
	return filepath.Join(modDir, "go.mod")
}

func cleanUp() {
	if modDir != "" {
		os.RemoveAll(modDir)
	}
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "PATH", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "CGO_ENABLED", "GOROOT", "GOWORK", "GOOS", "GOARCH":
			continue
		}
		env = append(env, e)
	}
	return append(env, "PATH="+goRoot+"/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -modfile="+modFile(), "CGO_ENABLED=0", "GOWORK=off")
}

// harnessFiles maps the overlay: every file of /verif/harness/<dir> appears as a file of /repo/<dir>.
func harnessFiles() map[string]string {
	out := map[string]string{}
	root := filepath.Join(verifDir, "harness")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			out[filepath.Join(repoDir, rel)] = p
		}
		return nil
	})
	return out
}

// droppedFiles are harness files that do not compile against the current tree; the rest is used without them.
var droppedFiles = map[string]string{}

// useFile reports whether an overlay file belongs to the packages wanted.
func useFile(r string, only map[string]bool) bool {
	pk := filepath.Dir(strings.TrimPrefix(r, repoDir+"/"))
	if pk == "internal/zzsym" || pk == "internal/zzref" {
		return true
	}
	return (only == nil || only[pk]) && droppedFiles[r] == ""
}

// needs are further packages whose harness files a package's harness uses.
var needs = map[string][]string{"internal/ctsetup": {"internal/ctsubmit", "internal/ctmonitor"}}

func withNeeds(only map[string]bool) map[string]bool {
	if only == nil {
		return nil
	}
	out := map[string]bool{}
	for k, v := range only {
		out[k] = out[k] || v
		for _, n := range needs[k] {
			out[n] = true
		}
	}
	return out
}

func LoadEngine(patterns []string, only map[string]bool) (*Engine, error) {
	only = withNeeds(only)
	for i := 0; ; i++ {
		e, bad, err := loadEngine(patterns, only)
		if err == nil || len(bad) == 0 || i > 3 {
			return e, err
		}
		for f, m := range bad {
			droppedFiles[f] = m
		}
	}
}

func loadEngine(patterns []string, only map[string]bool) (*Engine, map[string]string, error) {
	t0 := time.Now()
	files := harnessFiles()
	ov := map[string][]byte{}
	for r, v := range files {
		if !useFile(r, only) || strings.HasSuffix(r, "_test.go") {
			continue
		}
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		ov[r] = b
	}
	deps, err := dependencies(only)
	if err != nil {
		return nil, nil, err
	}
	for f, b := range deps {
		ov[f] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repoDir,
		// Go versions of the assembly in math/big (standard library only)
		BuildFlags: []string{"-tags=math_big_pure_go"},
		Env:        goEnv(),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			m := parser.SkipObjectResolution
			if _, ok := ov[filename]; ok {
				m |= parser.ParseComments
			}
			return parser.ParseFile(fset, filename, src, m)
		},
		Overlay: ov,
	}
	pkgs, err := packages.Load(cfg, append([]string{zzPath}, patterns...)...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	bad := map[string]string{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				errs = append(errs, e.Error())
				if f, _, ok := strings.Cut(e.Pos, ":"); ok && ov[f] != nil && !strings.Contains(f, "/internal/zz") {
					bad[f] = e.Error()
				}
			}
		}
	})
	if len(errs) > 0 {
		return nil, bad, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, models: map[string]*ssa.Function{}, harness: map[string]*ssa.Function{}, overlay: files, sfuncs: map[string]bool{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	if rt := e.pkgs["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			e.rtErr = t.Type()
		}
	}
	// model directives
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for i, f := range p.Syntax {
			if i >= len(p.CompiledGoFiles) {
				continue
			}
			if _, ok := ov[p.CompiledGoFiles[i]]; !ok {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				sp := e.pkgs[p.PkgPath]
				if sp == nil {
					continue
				}
				fn := sp.Func(fd.Name.Name)
				if strings.HasPrefix(fd.Name.Name, "Verif") {
					e.harness[p.PkgPath+"."+fd.Name.Name] = fn
				}
				if fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if s, ok := strings.CutPrefix(c.Text, "//gosym:model "); ok {
						e.models[strings.TrimSpace(s)] = fn
					}
				}
			}
		}
	})
	e.intr = intrinsics()
	e.loadDur = time.Since(t0)
	return e, nil, nil
}

func (e *Engine) lookup(fn *ssa.Function, name string) (Intrinsic, *ssa.Function) {
	if m, ok := e.models[name]; ok && m != fn {
		return nil, m
	}
	if i, ok := e.intr[name]; ok {
		return i, nil
	}
	return nil, nil
}

// namedType finds a type of a loaded package.
func (e *Engine) namedType(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (e *Engine) harnessNames(pkg string) []string {
	var out []string
	for k := range e.harness {
		if strings.HasPrefix(k, pkg+".") {
			out = append(out, strings.TrimPrefix(k, pkg+"."))
		}
	}
	sort.Strings(out)
	return out
}

// writeOverlay produces the overlay file for go test.
func writeOverlay(path string, only map[string]bool, extra map[string]string) error {
	m := map[string]string{}
	deps, err := dependencies(only)
	if err != nil {
		return err
	}
	for f, b := range deps {
		p := filepath.Join(filepath.Dir(path), fmt.Sprintf("dep%d_%s", len(m), filepath.Base(f)))
		if err := os.WriteFile(p, b, 0644); err != nil {
			return err
		}
		m[f] = p
	}
	for k, v := range harnessFiles() {
		if useFile(k, only) {
			m[k] = v
		}
	}
	for k, v := range extra {
		m[k] = v
	}
	b, _ := json.Marshal(map[string]any{"Replace": m})
	return os.WriteFile(path, b, 0644)
}
