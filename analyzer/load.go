package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/QuarkChain/goquarkchain"

// World is the type-checked and SSA-built program of the repository.
type World struct {
	mutating    map[*ssa.Function]int
	repo        string
	prog        *ssa.Program
	pkgs        []*packages.Package
	fset        *token.FileSet
	funcs       map[string]*ssa.Function
	all         []*ssa.Function // every repo function with a body, closures included
	named       map[string]*types.Named
	mods        map[*ssa.Function]map[*types.Var]bool
	impl        map[string][]*ssa.Function // method name -> repo methods
	callers     map[*ssa.Function][]ssa.CallInstruction
	succMemo    map[*ssa.Function][]*ssa.Function
	liveMemo    map[*ssa.Function]bool
	unconverged map[string]bool
	privMemo    map[*ssa.Function]bool
}

func loadWorld(repo string) (*World, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GO111MODULE=") || strings.HasPrefix(e, "GOROOT=") || strings.HasPrefix(e, "PATH=") {
			continue
		}
		env = append(env, e)
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat("/opt/veriftools/go1.23.12/bin/go"); err == nil {
		path = "/opt/veriftools/go1.23.12/bin:" + path
	}
	env = append(env, "PATH="+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "CGO_ENABLED=1")
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  repo,
		Env:  env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var keep []*packages.Package
	for _, p := range pkgs {
		if strings.HasSuffix(p.PkgPath, "/qkchash/native") { // SWIG output, only linked under the nt tag
			continue
		}
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, p.Errors[0])
		}
		keep = append(keep, p)
	}
	if len(keep) < 40 {
		return nil, fmt.Errorf("only %d packages loaded", len(keep))
	}
	prog, _ := ssautil.Packages(keep, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{repo: repo, prog: prog, pkgs: keep, fset: prog.Fset, funcs: map[string]*ssa.Function{}, named: map[string]*types.Named{}, impl: map[string][]*ssa.Function{}}
	for fn := range ssautil.AllFunctions(prog) {
		if !w.inRepo(fn) || fn.Blocks == nil || fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package init") {
			continue
		}
		w.all = append(w.all, fn)
	}
	// AllFunctions only reaches methods of runtime types; add every declared one.
	seen := map[*ssa.Function]bool{}
	for _, f := range w.all {
		seen[f] = true
	}
	var addFn func(f *ssa.Function)
	addFn = func(f *ssa.Function) {
		if f == nil || f.Blocks == nil {
			return
		}
		if !seen[f] {
			seen[f] = true
			w.all = append(w.all, f)
		}
		for _, a := range f.AnonFuncs {
			addFn(a)
		}
	}
	for _, p := range keep {
		for _, obj := range p.TypesInfo.Defs {
			if fo, ok := obj.(*types.Func); ok {
				addFn(prog.FuncValue(fo))
			}
			if tn, ok := obj.(*types.TypeName); ok && !tn.IsAlias() && tn.Parent() == p.Types.Scope() {
				if n, ok := tn.Type().(*types.Named); ok {
					w.named[relPkg(p.PkgPath)+"."+tn.Name()] = n
				}
			}
		}
	}
	sort.Slice(w.all, func(i, j int) bool {
		return w.fullName(w.all[i])+fmt.Sprint(w.all[i].Pos()) < w.fullName(w.all[j])+fmt.Sprint(w.all[j].Pos())
	})
	for _, f := range w.all {
		w.funcs[w.fullName(f)] = f
		if f.Signature.Recv() != nil && f.Parent() == nil {
			w.impl[f.Name()] = append(w.impl[f.Name()], f)
		}
	}
	w.computeMods()
	return w, nil
}

func relPkg(p string) string {
	if p == modPath {
		return "."
	}
	return strings.TrimPrefix(p, modPath+"/")
}

func (w *World) inRepo(fn *ssa.Function) bool {
	p := fn.Package()
	if p == nil && fn.Parent() != nil {
		return w.inRepo(fn.Parent())
	}
	if p == nil {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath)
}

// fullName: "core.(*MinorBlockChain).insertChain", closures "…$1".
func (w *World) fullName(fn *ssa.Function) string {
	return objFull(fn)
}

func objFull(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return objFull(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = relPkg(fn.Pkg.Pkg.Path())
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = relPkg(fn.Object().Pkg().Path())
	}
	if r := fn.Signature.Recv(); r != nil {
		return pkg + "." + recvStr(r.Type()) + "." + fn.Name()
	}
	return pkg + "." + fn.Name()
}

func recvStr(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		return "(*" + typeName(p.Elem()) + ")"
	}
	return typeName(t)
}

func typeName(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		return t.Obj().Name()
	case *types.Pointer:
		return "*" + typeName(t.Elem())
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, w.repo+"/"), q.Line)
}

// callees resolves a call: static target, or all repo methods implementing an
// invoked interface method.
func (w *World) callees(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if c.IsInvoke() {
		it, ok := c.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		var r []*ssa.Function
		for _, f := range w.impl[c.Method.Name()] {
			rt := f.Signature.Recv().Type()
			if strings.Contains(f.Pkg.Pkg.Path(), "/mocks") {
				continue
			}
			if types.Implements(rt, it) || types.Implements(types.NewPointer(rt), it) {
				r = append(r, f)
			}
		}
		return r
	}
	return nil
}

// computeMods: struct fields each function may assign, transitively.
func (w *World) computeMods() {
	w.mods = map[*ssa.Function]map[*types.Var]bool{}
	edges := map[*ssa.Function][]*ssa.Function{}
	w.callers = map[*ssa.Function][]ssa.CallInstruction{}
	w.unconverged = map[string]bool{}
	w.privMemo = map[*ssa.Function]bool{}
	for _, f := range w.all {
		m := map[*types.Var]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					addr := in.Addr
					for {
						if ia, ok := addr.(*ssa.IndexAddr); ok {
							addr = ia.X
							if u, ok := addr.(*ssa.UnOp); ok {
								addr = u.X
							}
							continue
						}
						break
					}
					if fa, ok := addr.(*ssa.FieldAddr); ok {
						m[fieldVar(fa.X.Type(), fa.Field)] = true
					}
				case *ssa.MapUpdate:
					if u, ok := in.Map.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							m[fieldVar(fa.X.Type(), fa.Field)] = true
						}
					}
				case ssa.CallInstruction:
					for _, c := range w.callees(in.Common()) {
						edges[f] = append(edges[f], c)
						w.callers[c] = append(w.callers[c], in)
					}
				case *ssa.MakeClosure:
					edges[f] = append(edges[f], in.Fn.(*ssa.Function))
				}
			}
		}
		w.mods[f] = m
	}
	for changed := true; changed; {
		changed = false
		for _, f := range w.all {
			m := w.mods[f]
			for _, c := range edges[f] {
				for v := range w.mods[c] {
					if !m[v] {
						m[v] = true
						changed = true
					}
				}
			}
		}
	}
}

func fieldVar(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i)
}
