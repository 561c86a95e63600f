package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Module is the path of the module under analysis.
const Module = "github.com/sjansen/pgutil"

type Program struct {
	dir  string
	fset *token.FileSet
	prog *ssa.Program
	pkgs []*packages.Package
	ssap map[string]*ssa.Package
	all  []*ssa.Function // functions of the module, closures included
	in   *Interner
	live map[*ssa.Function]*liveInfo

	calleeCache map[*ssa.Function][]*ssa.Function
	namedCache  []*types.Named
	sreach      map[*ssa.Function]map[*ssa.Function]bool
	mods        map[*ssa.Function]*modset
	literals    map[*ssa.Global]*literal
	globals     map[*ssa.Global]constant.Value
	taken       map[string][]*ssa.Function
	fstores     map[string][]ssa.Value
	callSites   map[*ssa.Function][]ssa.CallInstruction
}

// Load type-checks and builds the SSA form of every package of the module.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Dir:  dir,
		Mode: packages.LoadSyntax | packages.NeedModule,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pk) == 0 {
		return nil, fmt.Errorf("no packages found in %s", dir)
	}
	prog, sp := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{dir: dir, fset: pk[0].Fset, prog: prog, pkgs: pk, ssap: map[string]*ssa.Package{},
		in: &Interner{m: map[vkey]*Val{}}, live: map[*ssa.Function]*liveInfo{},
		calleeCache: map[*ssa.Function][]*ssa.Function{}, sreach: map[*ssa.Function]map[*ssa.Function]bool{}, mods: map[*ssa.Function]*modset{}}
	for i, x := range sp {
		if x == nil {
			return nil, fmt.Errorf("no SSA for %s", pk[i].PkgPath)
		}
		p.ssap[pk[i].PkgPath] = x
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && p.inScope(f) {
			p.all = append(p.all, f)
		}
	}
	sort.Slice(p.all, func(i, j int) bool {
		if p.all[i].Pos() != p.all[j].Pos() {
			return p.all[i].Pos() < p.all[j].Pos()
		}
		return p.all[i].String() < p.all[j].String()
	})
	return p, nil
}

func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	if r, err := filepath.Rel(p.dir, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// inScope: code of the module under analysis (synthetic wrappers included).
func (p *Program) inScope(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return inModule(f.Pkg.Pkg.Path())
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return inModule(o.Pkg().Path())
		}
		if f.Origin() != nil && f.Origin() != f {
			return p.inScope(f.Origin())
		}
	}
	return false
}

func inModule(path string) bool {
	return path == Module || strings.HasPrefix(path, Module+"/")
}

// Func finds a package-level function, nil if there is none.
func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.ssap[pkgPath(pkg)]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func pkgPath(rel string) string {
	if rel == "" {
		return Module
	}
	return Module + "/" + rel
}

// Method finds the method of a named type (pointer or value receiver).
func (p *Program) Method(pkg, typ, name string) *ssa.Function {
	t := p.Type(pkg, typ)
	if t == nil {
		return nil
	}
	for _, rt := range []types.Type{types.NewPointer(t), t} {
		if sel := types.NewMethodSet(rt).Lookup(t.Obj().Pkg(), name); sel != nil {
			return p.prog.MethodValue(sel)
		}
	}
	return nil
}

func (p *Program) Type(pkg, typ string) *types.Named {
	sp := p.ssap[pkgPath(pkg)]
	if sp == nil {
		return nil
	}
	m, ok := sp.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	n, _ := m.Type().(*types.Named)
	return n
}

// method resolves an interface method for a concrete type.
func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

// NamedTypes lists the named, non-interface types of the module.
func (p *Program) NamedTypes() []*types.Named {
	var r []*types.Named
	var paths []string
	for k := range p.ssap {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		var names []string
		for n := range p.ssap[k].Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if t, ok := p.ssap[k].Members[n].(*ssa.Type); ok {
				if nt, ok := t.Type().(*types.Named); ok && !types.IsInterface(nt) {
					r = append(r, nt)
				}
			}
		}
	}
	return r
}

// readOnly: library functions that do not write through their arguments.
func (p *Program) readOnly(name string) bool {
	for _, s := range []string{
		"(*go.uber.org/zap.", "(go.uber.org/zap", "(" + Module + "/internal/sys.Logger)",
		"fmt.Fprint", "fmt.Print", "fmt.Sprint", "fmt.Errorf", "errors.", "strings.", "time.",
		"path/filepath.", "os.", "(time.", "go.uber.org/zap", "(*strings.Builder)", "(*bytes.Buffer).String",
		"(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes", "strconv.",
	} {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	return false
}

// pure: library functions whose result depends on the arguments only.
func (p *Program) pure(name string) bool {
	switch name {
	case "path/filepath.Dir", "path/filepath.Ext", "path/filepath.Base", "path/filepath.Join", "path/filepath.Clean":
		return true
	case "strings.NewReader", "strings.NewReplacer":
		return false
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return true
	case "strconv.Itoa", "strconv.Quote", "strconv.FormatInt", "strconv.FormatBool":
		return true
	}
	return strings.HasPrefix(name, "strings.") && !strings.Contains(name, "Reader")
}

// globalConst: the value of a package-level variable (or constant) that is
// initialised with a constant and never changed.
func (p *Program) globalConst(g *ssa.Global) (constant.Value, bool) {
	if p.globals == nil {
		p.globals = map[*ssa.Global]constant.Value{}
		bad := map[*ssa.Global]bool{}
		stored := map[*ssa.Global]bool{}
		for _, fn := range p.all {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var ops [12]*ssa.Value
					for i, o := range in.Operands(ops[:0]) {
						g, ok := (*o).(*ssa.Global)
						if !ok {
							continue
						}
						switch x := in.(type) {
						case *ssa.UnOp:
							continue
						case *ssa.Store:
							if c, ok := x.Val.(*ssa.Const); ok && i == 0 && fn.Synthetic != "" && fn.Name() == "init" && !stored[g] && c.Value != nil {
								p.globals[g] = c.Value
								stored[g] = true
								continue
							}
						case *ssa.DebugRef:
							continue
						}
						bad[g] = true
					}
				}
			}
		}
		for g := range bad {
			delete(p.globals, g)
		}
	}
	v, ok := p.globals[g]
	return v, ok
}

func (p *Program) globalConstByName(pkg, name string) string {
	if g, ok := p.ssap[pkgPath(pkg)].Members[name].(*ssa.Global); ok {
		if v, ok := p.globalConst(g); ok && v.Kind() == constant.String {
			return constant.StringVal(v)
		}
	}
	return ""
}
