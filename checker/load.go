package main

import (
	"fmt"
	"go/build"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is a loaded, type-checked and SSA-lowered module of the repository.
type Prog struct {
	Pkgs   []*packages.Package
	SSA    *ssa.Program
	ByPath map[string]*packages.Package
	Root   string // directory of the module
	All    map[*ssa.Function]bool
}

const modPath = "github.com/way-platform/tachograph-go"

func repoDir() string {
	if d := os.Getenv("TGCHECK_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// goEnv is the environment of the repository's own build (see /opt/vp/env.sh).
func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GO") || strings.HasPrefix(e, "PATH=") {
			continue
		}
		env = append(env, e)
	}
	return append(env,
		"PATH=/opt/veriftools/go1.25.14/bin:"+os.Getenv("PATH"),
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off",
		"GOFLAGS=-mod=readonly -buildvcs=false",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod",
	)
}

func loadModule(dir string, patterns ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule | packages.NeedEmbedFiles | packages.NeedEmbedPatterns,
		Dir:   dir,
		Env:   goEnv(),
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("%d load/type errors, first: %s", len(errs), errs[0])
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{Pkgs: pkgs, SSA: prog, Root: dir, ByPath: map[string]*packages.Package{}}
	packages.Visit(pkgs, nil, func(pk *packages.Package) { p.ByPath[pk.PkgPath] = pk })
	p.All = ssautil.AllFunctions(prog)
	return p, nil
}

func (p *Prog) pkg(path string) *ssa.Package {
	pk := p.ByPath[path]
	if pk == nil {
		return nil
	}
	return p.SSA.Package(pk.Types)
}

// isRepoPkg reports whether the package is hand-written code of the repository
// (the generated protobuf package tree is excluded).
func isRepoPkg(pkg *types.Package) bool {
	if pkg == nil {
		return false
	}
	path := pkg.Path()
	if path != modPath && !strings.HasPrefix(path, modPath+"/") {
		return false
	}
	return !strings.HasPrefix(path, modPath+"/proto/")
}

func isProtoPkg(pkg *types.Package) bool {
	return pkg != nil && strings.HasPrefix(pkg.Path(), modPath+"/proto/")
}

// funcPkg returns the types package a function belongs to (following closures,
// instantiations and wrappers).
func funcPkg(f *ssa.Function) *types.Package {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg
		}
		if obj := g.Object(); obj != nil && obj.Pkg() != nil {
			return obj.Pkg()
		}
	}
	return nil
}

func isRepoFunc(f *ssa.Function) bool { return isRepoPkg(funcPkg(f)) }

// fname is the stable name used in reports: package-relative, no line numbers.
func fname(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "tachograph.")
	return s
}

// libPackages lists the import paths of the hand-written library packages, so
// that packages the command does not import are analysed too.
func libPackages() []string {
	var out []string
	seen := map[string]bool{}
	root := repoDir()
	filepath.Walk(root, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, path)
		if fi.IsDir() {
			base := fi.Name()
			if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || rel == "proto") {
				return filepath.SkipDir
			}
			if rel != "." {
				if _, err := os.Stat(filepath.Join(path, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "_test.go") {
			d := filepath.Dir(rel)
			ip := modPath
			if d != "." {
				ip += "/" + filepath.ToSlash(d)
			}
			if !seen[ip] {
				if ok, _ := build.Default.MatchFile(filepath.Dir(path), fi.Name()); ok {
					seen[ip] = true
					out = append(out, ip)
				}
			}
		}
		return nil
	})
	sort.Strings(out)
	return out
}
