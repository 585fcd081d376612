// Package load type-checks the repository's own packages and builds SSA for them.
package load

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the resolved program every rule works on.
type Prog struct {
	Dir    string
	Mod    string
	Fset   *token.FileSet
	Pkgs   []*packages.Package
	ByPath map[string]*packages.Package
	SSA    *ssa.Program
	SPkg   map[string]*ssa.Package

	// AllFuncs are the functions with bodies declared in the module (non-test, non-mock), closures included
	AllFuncs []*ssa.Function
	// Concrete are the module's concrete named types (non-mock)
	Concrete []types.Type

	constGlobals map[*ssa.Global]constant.Value
	constStructs map[*ssa.Global][]constant.Value
}

// RepoDir is the analysed tree: /repo, unless WILLOW_REPO points at a scratch copy (development only).
func RepoDir() string {
	if d := os.Getenv("WILLOW_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func Load() (*Prog, error) {
	dir := RepoDir()
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:  dir,
		Fset: fset,
		Env:  append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./internal/...", "./pkg/...", "./cmd/...")
	if err != nil {
		return nil, fmt.Errorf("loading %s: %w", dir, err)
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", dir)
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		sort.Strings(errs)
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}

	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.BuildSerially)
	prog.Build()

	p := &Prog{Dir: dir, Fset: fset, Pkgs: pkgs, SSA: prog, ByPath: map[string]*packages.Package{}, SPkg: map[string]*ssa.Package{}}
	for i, pk := range pkgs {
		if pk.Module != nil && p.Mod == "" {
			p.Mod = pk.Module.Path
		}
		p.ByPath[pk.PkgPath] = pk
		if spkgs[i] != nil {
			p.SPkg[pk.PkgPath] = spkgs[i]
		}
	}
	if p.Mod == "" {
		return nil, fmt.Errorf("module path not resolved")
	}

	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.AllFuncs = append(p.AllFuncs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range pkgs {
		sp := p.SPkg[pk.PkgPath]
		if sp == nil || IsMockPkg(pk.PkgPath) {
			continue
		}
		names := make([]string, 0, len(sp.Members))
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				T := m.Type()
				named, ok := T.(*types.Named)
				if !ok {
					continue
				}
				if !types.IsInterface(named) {
					p.Concrete = append(p.Concrete, named)
				}
				for i := 0; i < named.NumMethods(); i++ {
					add(prog.FuncValue(named.Method(i)))
				}
			}
		}
	}
	return p, nil
}

// IsMockPkg tells the generated test doubles and test helpers apart from the product's code.
func IsMockPkg(path string) bool {
	return strings.HasSuffix(path, "fakes") || strings.Contains(path, "/testhelpers") || strings.Contains(path, "/integration-tests") || strings.Contains(path, "mock")
}

// InModule reports whether the package belongs to the analysed repository.
func (p *Prog) InModule(path string) bool {
	return path == p.Mod || strings.HasPrefix(path, p.Mod+"/")
}

// Pkg resolves a package by its path relative to the module.
func (p *Prog) Pkg(rel string) (*packages.Package, *ssa.Package, error) {
	path := p.Mod + "/" + rel
	pk, sp := p.ByPath[path], p.SPkg[path]
	if pk == nil || sp == nil {
		return nil, nil, fmt.Errorf("anchor package %s not found", rel)
	}
	return pk, sp, nil
}

// Func resolves a package-level function.
func (p *Prog) Func(rel, name string) (*ssa.Function, error) {
	_, sp, err := p.Pkg(rel)
	if err != nil {
		return nil, err
	}
	f := sp.Func(name)
	if f == nil {
		return nil, fmt.Errorf("anchor function %s.%s not found", rel, name)
	}
	return f, nil
}

// Named resolves a named type.
func (p *Prog) Named(rel, name string) (*types.Named, error) {
	pk, _, err := p.Pkg(rel)
	if err != nil {
		return nil, err
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil, fmt.Errorf("anchor type %s.%s not found", rel, name)
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		return nil, fmt.Errorf("anchor type %s.%s is not a named type", rel, name)
	}
	return n, nil
}

// Method resolves a method of a named type (value or pointer receiver).
func (p *Prog) Method(rel, typ, name string) (*ssa.Function, error) {
	n, err := p.Named(rel, typ)
	if err != nil {
		return nil, err
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			f := p.SSA.FuncValue(n.Method(i))
			if f == nil || len(f.Blocks) == 0 {
				return nil, fmt.Errorf("anchor method %s.%s.%s has no body", rel, typ, name)
			}
			return f, nil
		}
	}
	return nil, fmt.Errorf("anchor method %s.%s.%s not found", rel, typ, name)
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// Rel strips the module path from a fully qualified name.
func (p *Prog) Rel(s string) string {
	return strings.ReplaceAll(s, p.Mod+"/", "")
}

// Inspect walks every non-mock file of the module.
func (p *Prog) Inspect(f func(pk *packages.Package, file *ast.File)) {
	for _, pk := range p.Pkgs {
		if IsMockPkg(pk.PkgPath) {
			continue
		}
		for _, file := range pk.Syntax {
			f(pk, file)
		}
	}
}

// Implementers returns the module's concrete (non-mock) types, as pointer types when needed, that implement iface.
func (p *Prog) Implementers(iface *types.Interface) []types.Type {
	var out []types.Type
	for _, t := range p.Concrete {
		if n, ok := t.(*types.Named); ok && n.TypeParams().Len() > 0 {
			continue
		}
		if types.Implements(t, iface) {
			out = append(out, t)
		} else if pt := types.NewPointer(t); types.Implements(pt, iface) {
			out = append(out, pt)
		}
	}
	return out
}

// ConstGlobal is the value of a package variable of a basic type that is set once, to a constant, when its package is
// initialised; nil for any other variable.
func (p *Prog) ConstGlobal(g *ssa.Global) constant.Value {
	if p.constGlobals == nil {
		p.constGlobals = map[*ssa.Global]constant.Value{}
		writes := map[*ssa.Global]int{}
		src := map[*ssa.Global]ssa.Value{}
		seen := map[*ssa.Function]bool{}
		scan := func(f *ssa.Function) {
			if f == nil || seen[f] {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var ops [8]*ssa.Value
					for _, o := range in.Operands(ops[:0]) {
						g, ok := (*o).(*ssa.Global)
						if !ok {
							continue
						}
						switch x := in.(type) {
						case *ssa.UnOp:
							continue
						case *ssa.Store:
							if x.Addr == g && x.Val != g {
								writes[g]++
								src[g] = x.Val
								if f.Synthetic != "package initializer" {
									writes[g] += 2
								}
								continue
							}
						case *ssa.DebugRef:
							continue
						}
						writes[g] += 2
					}
				}
			}
		}
		for _, f := range p.AllFuncs {
			scan(f)
		}
		for _, pk := range p.SPkg {
			scan(pk.Func("init"))
		}
		for i := 0; i < 4; i++ {
			for g, v := range src {
				if writes[g] != 1 {
					continue
				}
				switch v := v.(type) {
				case *ssa.Const:
					if v.Value != nil {
						p.constGlobals[g] = v.Value
					}
				case *ssa.UnOp:
					if h, ok := v.X.(*ssa.Global); ok && p.constGlobals[h] != nil {
						p.constGlobals[g] = p.constGlobals[h]
					}
				}
			}
		}
	}
	return p.constGlobals[g]
}

// ConstStruct holds the fields of a package variable of a struct type that is built once, from constants, when its package
// is initialised, and never written or handed out by address afterwards; nil for any other variable. A field that is
// not set has a nil value.
func (p *Prog) ConstStruct(g *ssa.Global) []constant.Value {
	if p.constStructs == nil {
		p.constStructs = map[*ssa.Global][]constant.Value{}
		bad := map[*ssa.Global]bool{}
		fields := map[*ssa.Global]map[int]ssa.Value{}
		seen := map[*ssa.Function]bool{}
		scan := func(f *ssa.Function) {
			if f == nil || seen[f] {
				return
			}
			seen[f] = true
			init := f.Synthetic == "package initializer"
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var ops [8]*ssa.Value
					for _, o := range in.Operands(ops[:0]) {
						g, ok := (*o).(*ssa.Global)
						if !ok {
							continue
						}
						if _, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !ok {
							continue
						}
						switch x := in.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
							continue
						case *ssa.FieldAddr:
							for _, r := range *x.Referrers() {
								switch y := r.(type) {
								case *ssa.UnOp, *ssa.DebugRef:
									continue
								case *ssa.Store:
									if m := fields[g]; init && y.Addr == x && y.Val != x && m[x.Field] == nil && len(f.Blocks) > 0 {
										if m == nil {
											m = map[int]ssa.Value{}
											fields[g] = m
										}
										m[x.Field] = y.Val
										continue
									}
								}
								bad[g] = true
							}
							continue
						}
						if x, ok := in.(*ssa.Store); ok && init && x.Addr == g && x.Val != g && fields[g] == nil {
							if fields[g] = literalFields(x.Val); fields[g] != nil {
								continue
							}
						}
						bad[g] = true
					}
				}
			}
		}
		for _, f := range p.AllFuncs {
			scan(f)
		}
		for _, pk := range p.SPkg {
			scan(pk.Func("init"))
		}
		for g, m := range fields {
			if bad[g] {
				continue
			}
			out := make([]constant.Value, g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).NumFields())
			ok := true
			for i, v := range m {
				switch v := v.(type) {
				case *ssa.Const:
					out[i] = v.Value
					ok = ok && v.Value != nil
				case *ssa.UnOp:
					h, is := v.X.(*ssa.Global)
					if is {
						out[i] = p.ConstGlobal(h)
					}
					ok = ok && is && out[i] != nil
				default:
					ok = false
				}
			}
			if ok {
				p.constStructs[g] = out
			}
		}
	}
	return p.constStructs[g]
}

// literalFields are the fields of a struct value that was just built in a local variable; nil if it was built otherwise.
func literalFields(v ssa.Value) map[int]ssa.Value {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	out := map[int]ssa.Value{}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if x != ld {
				return nil
			}
		case *ssa.FieldAddr:
			for _, r := range *x.Referrers() {
				st, ok := r.(*ssa.Store)
				if !ok || st.Addr != x || out[x.Field] != nil {
					return nil
				}
				out[x.Field] = st.Val
			}
		default:
			return nil
		}
	}
	return out
}
