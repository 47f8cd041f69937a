package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/vitelabs/go-vite/v2"

// Prog is the resolved program: every package of the repository's current
// working tree, type-checked and in SSA form.
type Prog struct {
	Root  string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	ByRel map[string]*packages.Package // "vm" -> package
	SSA   *ssa.Program
	SPkg  map[string]*ssa.Package
	Fns   []*ssa.Function // all source functions of the repository, closures included
	All   map[*ssa.Function]bool
}

func env() []string {
	var out []string
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		switch k {
		case "PATH", "GOROOT", "GOTOOLCHAIN", "GOFLAGS", "GOPROXY", "GO111MODULE", "CGO_ENABLED", "GOWORK":
			continue
		}
		out = append(out, kv)
	}
	return append(out,
		"PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin",
		"GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off", "CGO_ENABLED=0")
}

func load(root string, pats ...string) (*Prog, error) {
	t0 := time.Now()
	if len(pats) == 0 {
		pats = []string{"./..."}
	}
	overlay := map[string][]byte{}
	// The pinned tree lacks the generated constant genesisJson: a stand-in lets
	// every package be type-checked. It is only added when nothing defines it.
	if !definesGenesis(filepath.Join(root, "common/config")) {
		overlay[filepath.Join(root, "common/config/zz_verif_genesis.go")] = []byte("package config\n\nconst genesisJson = \"{}\"\n")
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: root, Env: env(), Fset: fset, Overlay: overlay,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.ParseComments|parser.SkipObjectResolution)
			if f != nil && !strings.HasPrefix(filename, root+"/") {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && fd.Name.Name != "init" {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	p := &Prog{Root: root, Fset: fset, ByRel: map[string]*packages.Package{}, SPkg: map[string]*ssa.Package{}}
	for _, pk := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("package %s does not type-check: %v", pk.PkgPath, e)
		}
		p.Pkgs = append(p.Pkgs, pk)
		p.ByRel[rel] = pk
	}
	// Dependencies are declared without bodies, so packages.Load marks them (and
	// their importers) ill-typed: create the SSA packages from the types directly.
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if pk.Types == nil {
			return
		}
		own := strings.HasPrefix(pk.PkgPath, modPath)
		var sp *ssa.Package
		if own {
			sp = prog.CreatePackage(pk.Types, pk.Syntax, pk.TypesInfo, true)
			rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
			p.SPkg[rel] = sp
		} else {
			prog.CreatePackage(pk.Types, nil, nil, true)
		}
	})
	prog.Build()
	p.SSA = prog
	p.All = ssautil.AllFunctions(prog)
	for f := range p.All {
		if len(f.Blocks) > 0 && inRepo(f) {
			p.Fns = append(p.Fns, f)
		}
	}
	p.initGlobals()
	if os.Getenv("VC_TIME") != "" {
		fmt.Fprintln(os.Stderr, "load", time.Since(t0), len(p.Pkgs), "pkgs", len(p.Fns), "fns")
	}
	return p, nil
}

func inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	var pk *types.Package
	if f.Pkg != nil {
		pk = f.Pkg.Pkg
	} else if o := f.Object(); o != nil {
		pk = o.Pkg()
	} else if r := f.Signature.Recv(); r != nil {
		return strings.Contains(r.Type().String(), modPath)
	}
	return pk != nil && (pk.Path() == modPath || strings.HasPrefix(pk.Path(), modPath+"/"))
}

func definesGenesis(dir string) bool {
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok {
				for _, s := range g.Specs {
					if v, ok := s.(*ast.ValueSpec); ok {
						for _, n := range v.Names {
							if n.Name == "genesisJson" {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}
