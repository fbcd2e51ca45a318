package main

import (
	"embed"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"kcheck/vg"
)

const modPath = "github.com/ikawaha/kagome/v2"

// Repo is the type-checked program under analysis.
type Repo struct {
	Dir   string
	Prog  *ssa.Program
	Pkgs  []*packages.Package
	SSA   map[string]*ssa.Package
	Funcs []*ssa.Function // every function with a body in the repository
	Fset  *token.FileSet
}

func repoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// IsRepo reports whether fn is defined in the repository.
func IsRepo(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return repoPkg(fn.Pkg.Pkg)
	}
	if o := fn.Object(); o != nil {
		return repoPkg(o.Pkg())
	}
	return false
}

func LoadRepo(dir string) (*Repo, error) {
	overlay, err := specOverlay(dir)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{Overlay: overlay, Mode: packages.LoadAllSyntax, Dir: dir, Tests: false, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, "./...", "./zz_kspec")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	vg.FindTables(prog, repoPkg)
	r := &Repo{Dir: dir, Prog: prog, Pkgs: pkgs, SSA: map[string]*ssa.Package{}, Fset: prog.Fset}
	for _, p := range sp {
		if p != nil {
			r.SSA[strings.TrimPrefix(strings.TrimPrefix(p.Pkg.Path(), modPath), "/")] = p
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if IsRepo(fn) && len(fn.Blocks) > 0 {
			r.Funcs = append(r.Funcs, fn)
		}
	}
	sort.Slice(r.Funcs, func(i, j int) bool { return r.Funcs[i].String() < r.Funcs[j].String() })
	return r, nil
}

// Func finds a package-level function or method: "tokenizer.New",
// "tokenizer.Tokenizer.Analyze", "tokenizer/lattice.Lattice.Forward".
func (r *Repo) Func(name string) *ssa.Function {
	i := strings.LastIndex(name, "/")
	j := strings.Index(name[i+1:], ".")
	pkg := name[:i+1+j]
	rest := name[i+1+j+1:]
	if pkg == "main" {
		pkg = ""
	}
	p := r.SSA[pkg]
	if p == nil {
		return nil
	}
	parts := strings.Split(rest, ".")
	if len(parts) == 1 {
		return p.Func(parts[0])
	}
	tn := p.Type(parts[0])
	if tn == nil {
		return nil
	}
	for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
		ms := types.NewMethodSet(t)
		for k := 0; k < ms.Len(); k++ {
			if ms.At(k).Obj().Name() == parts[1] {
				if fn := r.Prog.FuncValue(ms.At(k).Obj().(*types.Func)); fn != nil {
					return fn
				}
			}
		}
	}
	return nil
}

func (r *Repo) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := r.Fset.Position(p)
	rel, err := filepath.Rel(r.Dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

// Eval evaluates a function with the given functions kept opaque.
func (r *Repo) Eval(fn *ssa.Function, opaque func(*ssa.Function) bool, args ...*vg.Term) *vg.Summary {
	if opaque == nil {
		opaque = func(*ssa.Function) bool { return false }
	}
	e := vg.NewEval(r.Prog, IsRepo, opaque)
	return e.Run(fn, args...)
}

//go:embed spec/*.go
var specFS embed.FS

// specOverlay places the specification package inside the module, in memory.
func specOverlay(dir string) (map[string][]byte, error) {
	out := map[string][]byte{}
	es, err := specFS.ReadDir("spec")
	if err != nil {
		return nil, err
	}
	for _, e := range es {
		b, err := specFS.ReadFile("spec/" + e.Name())
		if err != nil {
			return nil, err
		}
		out[filepath.Join(dir, "zz_kspec", e.Name())] = b
	}
	return out, nil
}

// External finds a method of an imported package.
func (r *Repo) External(pkg, typ, method string) *ssa.Function {
	p := r.Prog.ImportedPackage(pkg)
	if p == nil {
		panic(missing("package " + pkg))
	}
	tn := p.Type(typ)
	if tn == nil {
		panic(missing(pkg + "." + typ))
	}
	ms := types.NewMethodSet(types.NewPointer(tn.Type()))
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == method {
			if fn := r.Prog.FuncValue(ms.At(k).Obj().(*types.Func)); fn != nil {
				return fn
			}
		}
	}
	panic(missing(pkg + "." + typ + "." + method))
}
