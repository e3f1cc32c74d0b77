// Package load type-checks the repository and builds its SSA form.
package load

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Module is the path of the analysed module.
const Module = "github.com/smart-core-os/sc-golang"

// Program is the type-checked repository.
type Program struct {
	Dir    string
	Pkgs   []*packages.Package // packages of the module
	ByPath map[string]*packages.Package
	Prog   *ssa.Program
	SSA    map[string]*ssa.Package
	All    map[string]*packages.Package
}

func goroot() string {
	for _, d := range []string{"/opt/veriftools/go1.23.12"} {
		if _, err := os.Stat(filepath.Join(d, "bin", "go")); err == nil {
			return d
		}
	}
	return ""
}

// Load loads every package of the module at dir.
func Load(dir string) (*Program, error) { return LoadOverlay(dir, nil) }

// LoadOverlay loads the module with other contents for some of its files.
func LoadOverlay(dir string, overlay map[string][]byte) (*Program, error) {
	env := []string{"CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GO111MODULE=on"}
	path := os.Getenv("PATH")
	if r := goroot(); r != "" {
		env = append(env, "GOROOT="+r)
		path = r + "/bin:" + path
	}
	env = append(env, "PATH="+path)
	if os.Getenv("GOPATH") == "" {
		if _, err := os.Stat("/root/go"); err == nil {
			env = append(env, "GOPATH=/root/go")
		}
	}
	// packages looks for go in our own PATH
	os.Setenv("PATH", path)
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), env...),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Dir: dir, Pkgs: ps, ByPath: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}, All: map[string]*packages.Package{}}
	var errs []string
	packages.Visit(ps, nil, func(pk *packages.Package) {
		p.All[pk.PkgPath] = pk
		if strings.HasPrefix(pk.PkgPath, Module) {
			for _, e := range pk.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository doesn't type-check: %s", strings.Join(errs, "; "))
	}
	if len(ps) < 20 {
		return nil, fmt.Errorf("only %d packages found", len(ps))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	for _, pk := range ps {
		p.ByPath[pk.PkgPath] = pk
	}
	for _, sp := range prog.AllPackages() {
		p.SSA[sp.Pkg.Path()] = sp
	}
	return p, nil
}
