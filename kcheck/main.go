package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func loadProg(dir string) (*Prog, error) {
	dir, err := filepath.Abs(dir)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(pkgs, 0)
	prog.Build()
	r := &Prog{ssa: prog, fset: prog.Fset, dir: dir, funcs: map[string]*ssa.Function{}}
	for _, p := range sp {
		if p != nil {
			r.pkgs = append(r.pkgs, p)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Package() != nil && r.isRepoPkg(fn.Package()) && len(fn.Blocks) > 0 {
			r.funcs[fn.String()] = fn
		}
	}
	// methods that AllFunctions does not reach
	for _, p := range r.pkgs {
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						if fn := prog.MethodValue(ms.At(i)); fn != nil && fn.Synthetic == "" && len(fn.Blocks) > 0 {
							r.addFn(fn)
						}
					}
				}
			}
			if fn, ok := m.(*ssa.Function); ok && len(fn.Blocks) > 0 {
				r.addFn(fn)
			}
		}
	}
	return r, nil
}

func (p *Prog) addFn(fn *ssa.Function) {
	p.funcs[fn.String()] = fn
	for _, a := range fn.AnonFuncs {
		p.addFn(a)
	}
}

const modPath = "github.com/savaki/kafka"

// method finds method name of named type typ in package path.
func (p *Prog) method(pkg, typ, name string) *ssa.Function {
	for _, k := range p.pkgs {
		if k.Pkg.Path() != pkg {
			continue
		}
		m := k.Members[typ]
		t, ok := m.(*ssa.Type)
		if !ok {
			return nil
		}
		for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			if sel := p.ssa.MethodSets.MethodSet(tt).Lookup(k.Pkg, name); sel != nil {
				fn := p.ssa.MethodValue(sel)
				if fn != nil && fn.Synthetic == "" {
					return fn
				}
			}
		}
	}
	return nil
}

func (p *Prog) fun(pkg, name string) *ssa.Function {
	for _, k := range p.pkgs {
		if k.Pkg.Path() == pkg {
			return k.Func(name)
		}
	}
	return nil
}

func (p *Prog) pkg(path string) *ssa.Package {
	for _, k := range p.pkgs {
		if k.Pkg.Path() == path {
			return k
		}
	}
	return nil
}
