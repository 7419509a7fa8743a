package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/callgraph/vta"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func repoDir() string {
	if d := os.Getenv("BPCHECK_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// Prog is the loaded, type-checked, SSA-built module.
type Prog struct {
	mergeNames map[string]bool
	Fset       *token.FileSet
	Pkgs       []*packages.Package // module packages
	SSA        *ssa.Program
	Funcs      []*ssa.Function // every module function with a body (incl. closures)
	ByPkg      map[string]*ssa.Package
	CG         *callgraph.Graph
	Dir        string

	inModule   map[*ssa.Function]bool
	driverMemo map[*ssa.Function]bool
	globals    map[*ssa.Global]*globalInfo
	effMemo    map[*ssa.Function]*effects
	escMemo    map[*ssa.Global]bool
}

type globalInfo struct {
	g        *ssa.Global
	stores   []*ssa.Store // all stores in the module
	initVal  ssa.Value    // sole stored value (in init), nil if none/multiple
	external bool
}

func goEnv(goos string) []string {
	env := os.Environ()
	set := func(k, v string) { env = append(env, k+"="+v) }
	set("GOFLAGS", "-mod=readonly")
	set("GOPROXY", "off")
	set("GOSUMDB", "off")
	set("GOTOOLCHAIN", "local")
	set("CGO_ENABLED", "0")
	set("GOWORK", "off")
	set("GO111MODULE", "on")
	if goos != "" {
		set("GOOS", goos)
		set("GOARCH", "amd64")
	}
	return env
}

func loadPkgs(goos string) ([]*packages.Package, *token.FileSet, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repoDir(),
		Env:  goEnv(goos),
		Fset: fset,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, nil, err
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	return pkgs, fset, nil
}

func pkgErrors(pkgs []*packages.Package) (errs []string) {
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	return errs
}

func load() (*Prog, error) {
	pkgs, fset, err := loadPkgs("linux")
	if err != nil {
		return nil, err
	}
	var mod []*packages.Package
	for _, p := range pkgs {
		if strings.HasPrefix(p.PkgPath, modPath) {
			mod = append(mod, p)
		}
	}
	if len(mod) == 0 {
		return nil, fmt.Errorf("no packages of %s found in %s", modPath, repoDir())
	}
	for _, p := range mod {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("package %s does not type-check: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(mod, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{Fset: fset, Pkgs: mod, SSA: prog, ByPkg: map[string]*ssa.Package{}, Dir: repoDir(),
		inModule: map[*ssa.Function]bool{}, globals: map[*ssa.Global]*globalInfo{}, effMemo: map[*ssa.Function]*effects{}, escMemo: map[*ssa.Global]bool{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", mod[i].PkgPath)
		}
		p.ByPkg[trimPkg(mod[i].PkgPath)] = sp
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Blocks == nil {
			continue
		}
		pk := f.Pkg
		if pk == nil && f.Origin() != nil {
			pk = f.Origin().Pkg
		}
		if pk == nil {
			// synthetic wrappers: in module if their object is
			if o := f.Object(); o != nil && o.Pkg() != nil && strings.HasPrefix(o.Pkg().Path(), modPath) {
				p.inModule[f] = true
				p.Funcs = append(p.Funcs, f)
			}
			continue
		}
		if strings.HasPrefix(pk.Pkg.Path(), modPath) {
			p.inModule[f] = true
			p.Funcs = append(p.Funcs, f)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		if a, b := p.Funcs[i].Pos(), p.Funcs[j].Pos(); a != b {
			return a < b
		}
		return p.Funcs[i].String() < p.Funcs[j].String()
	})
	p.CG = vta.CallGraph(all, cha.CallGraph(prog))
	p.scanGlobals()
	return p, nil
}

func trimPkg(path string) string {
	if path == modPath {
		return "main"
	}
	return strings.TrimPrefix(path, modPath+"/")
}

func (p *Prog) scanGlobals() {
	for _, sp := range p.ByPkg {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				p.globals[g] = &globalInfo{g: g}
			}
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						gi := p.globals[g]
						if gi == nil {
							gi = &globalInfo{g: g, external: true}
							p.globals[g] = gi
						}
						gi.stores = append(gi.stores, st)
					}
				}
			}
		}
	}
	for _, gi := range p.globals {
		if len(gi.stores) == 1 && !gi.external && gi.stores[0].Parent().Name() == "init" {
			gi.initVal = gi.stores[0].Val
		}
	}
}

// addrTaken reports whether the address of g escapes (used other than as
// load/store operand).
func (p *Prog) globalEscapes(g *ssa.Global) bool {
	if r, ok := p.escMemo[g]; ok {
		return r
	}
	r := p.globalEscapes1(g)
	p.escMemo[g] = r
	return r
}

func (p *Prog) globalEscapes1(g *ssa.Global) bool {
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Val == ssa.Value(g) {
							return true
						}
					case *ssa.UnOp:
					case *ssa.FieldAddr, *ssa.IndexAddr:
						return true
					case *ssa.DebugRef:
					default:
						return true
					}
				}
			}
		}
	}
	return false
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if o, ok := f.Object().(*types.Func); ok && f.Synthetic == "" {
		return objName(o)
	}
	if f.Origin() != nil && f.Origin() != f {
		return fnName(f.Origin())
	}
	return trimMod(f.RelString(nil))
}

func objName(o *types.Func) string { return trimMod(o.FullName()) }

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (p *Prog) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	// nearest positioned instruction in the block
	b := in.Block()
	if b != nil {
		best := token.NoPos
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				best = x.Pos()
			}
			if x == in && best.IsValid() {
				return p.pos(best)
			}
		}
		if best.IsValid() {
			return p.pos(best)
		}
	}
	return p.pos(in.Parent().Pos())
}

// fn resolves "pkg.Func" or "(*pkg.T).Method" in the module, nil if absent.
func (p *Prog) fn(name string) *ssa.Function {
	for _, f := range p.Funcs {
		if f.Synthetic == "" && f.Parent() == nil && fnName(f) == name {
			return f
		}
	}
	return nil
}

// dynCallees returns the VTA callees of a dynamic call.
func (p *Prog) dynCallees(site ssa.CallInstruction) (out []*ssa.Function) {
	n := p.CG.Nodes[site.Parent()]
	if n == nil {
		return nil
	}
	seen := map[*ssa.Function]bool{}
	for _, e := range n.Out {
		if e.Site == site && !seen[e.Callee.Func] {
			seen[e.Callee.Func] = true
			out = append(out, e.Callee.Func)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// calleeName names the static callee, interface method or builtin of a call.
func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return objName(c.Method)
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return v.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	return ""
}

// typ finds a named type of the module, "pkg.Name" ("main" for the root).
func (p *Prog) typ(name string) types.Type {
	i := strings.LastIndex(name, ".")
	sp := p.ByPkg[name[:i]]
	if sp == nil {
		return nil
	}
	if o, ok := sp.Pkg.Scope().Lookup(name[i+1:]).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

// modFuncs lists the module's functions that come from source.
func (p *Prog) modFuncs() (out []*ssa.Function) {
	for _, f := range p.Funcs {
		if f.Synthetic == "" {
			out = append(out, f)
		}
	}
	return out
}
