// Package rules decides the properties.
package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"scverify/internal/absint"
	"scverify/internal/load"
)

// Val is an abstract value.
type Val = absint.Val

// Ob is an obligation: a rule that has to hold for a construct.
type Ob struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"pos,omitempty"`
	OK        bool     `json:"ok"`
	Undecided bool     `json:"undecided,omitempty"`
	Detail    string   `json:"detail,omitempty"`
	Trace     []string `json:"trace,omitempty"`
	Paths     int      `json:"paths,omitempty"`
	Cut       int      `json:"cut,omitempty"`
	Steps     int      `json:"steps,omitempty"`
}

// Ctx is what a rule works with.
type Ctx struct {
	P       *load.Program
	E       *absint.Engine
	Prop    string
	Tier    string
	Only    string // only run rules whose name has this prefix
	Debug   bool
	mu      sync.Mutex
	Obs     []*Ob
	Funcs   map[string]bool
	Notes   []string
	Counts  map[string]any
	wg      sync.WaitGroup
	sem     chan struct{}
	lockSSA sync.Mutex
}

// Rule is a named group of obligations.
type Rule struct {
	Prop string
	Name string
	Desc string
	Run  func(c *Ctx)
}

var all []Rule

func register(prop, name, desc string, run func(c *Ctx)) {
	all = append(all, Rule{prop, name, desc, run})
}

// For returns the rules of a property.
func For(prop string) []Rule {
	var r []Rule
	for _, x := range all {
		if x.Prop == prop {
			r = append(r, x)
		}
	}
	return r
}

// New creates a context.
func New(p *load.Program, prop, tier string) *Ctx {
	return &Ctx{P: p, E: &absint.Engine{Prog: p.Prog, Module: load.Module}, Prop: prop, Tier: tier, Funcs: map[string]bool{}}
}

// Run runs all the rules of the property.
func (c *Ctx) Run() {
	for _, r := range For(c.Prop) {
		if c.Only != "" && !strings.HasPrefix(r.Name, strings.SplitN(c.Only, "@", 2)[0]) {
			continue
		}
		start := time.Now()
		n := len(c.Obs)
		func() {
			defer func() {
				if e := recover(); e != nil {
					if m, ok := e.(missing); ok {
						c.add(&Ob{Rule: r.Name, Construct: m.what, Undecided: true, Detail: "anchor not found: " + m.what})
						return
					}
					c.add(&Ob{Rule: r.Name, Construct: "analysis", Undecided: true, Detail: fmt.Sprint("the analysis failed: ", e), Trace: strings.Split(string(debug.Stack()), "\n")})
				}
			}()
			r.Run(c)
		}()
		if len(c.Obs) == n {
			c.add(&Ob{Rule: r.Name, Construct: "analysis", Undecided: true, Detail: "no obligations found"})
		}
		if os.Getenv("SCV_TIME") != "" {
			p := 0
			for _, o := range c.Obs[n:] {
				p += o.Paths
			}
			fmt.Fprintf(os.Stderr, "%-30s %6.2fs %d obligations %d paths\n", r.Name, time.Since(start).Seconds(), len(c.Obs)-n, p)
		}
	}
}

// Analysed are the functions of the module that were interpreted.
func (c *Ctx) Analysed() []string {
	var r []string
	if c.E == nil {
		return nil
	}
	c.E.Seen.Range(func(k, _ any) bool {
		if fn := k.(*ssa.Function); c.E.InModule(fn) {
			r = append(r, strings.ReplaceAll(fn.String(), load.Module+"/", ""))
		}
		return true
	})
	return r
}

// Count records a number for the evidence.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.Counts == nil {
		c.Counts = map[string]any{}
	}
	c.Counts[name] = n
}

type missing struct{ what string }

// Missing is what wasn't found.
func (m missing) Missing() string { return m.what }

func (c *Ctx) add(o *Ob) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Obs = append(c.Obs, o)
}

// Ob records an obligation that was decided.
func (c *Ctx) Ob(rule, construct string, pos token.Pos, ok bool, format string, args ...any) {
	o := &Ob{Rule: rule, Construct: construct, OK: ok, Pos: c.pos(pos)}
	if !ok {
		o.Detail = fmt.Sprintf(format, args...)
	}
	c.add(o)
}

// Undecided records an obligation that couldn't be decided.
func (c *Ctx) Undecided(rule, construct string, pos token.Pos, format string, args ...any) {
	c.add(&Ob{Rule: rule, Construct: construct, Undecided: true, Pos: c.pos(pos), Detail: fmt.Sprintf(format, args...)})
}

func (c *Ctx) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := c.P.Prog.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(c.P.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// Pkg finds a package of the module by its path relative to it.
func (c *Ctx) Pkg(rel string) *ssa.Package {
	pp := rel
	if !strings.Contains(rel, ".") || !strings.Contains(strings.SplitN(rel, "/", 2)[0], ".") {
		pp = load.Module + "/" + rel
	}
	sp := c.P.SSA[pp]
	if sp == nil {
		panic(missing{"package " + rel})
	}
	return sp
}

// Fn finds a function.
func (c *Ctx) Fn(pkg, name string) *ssa.Function {
	f := c.Pkg(pkg).Func(name)
	if f == nil {
		panic(missing{pkg + "." + name})
	}
	return f
}

// Type finds a named type.
func (c *Ctx) Type(pkg, name string) types.Type {
	t := c.Pkg(pkg).Type(name)
	if t == nil {
		panic(missing{pkg + "." + name})
	}
	return t.Type()
}

// ExtType finds a type in any package.
func (c *Ctx) ExtType(pkg, name string) types.Type {
	sp := c.P.SSA[pkg]
	if sp == nil {
		panic(missing{"package " + pkg})
	}
	t := sp.Type(name)
	if t == nil {
		panic(missing{pkg + "." + name})
	}
	return t.Type()
}

// Method finds a method of *T or T.
func (c *Ctx) Method(pkg, typ, name string) *ssa.Function {
	m := c.methodOf(c.Type(pkg, typ), name)
	if m == nil {
		panic(missing{pkg + "." + typ + "." + name})
	}
	return m
}

func (c *Ctx) methodOf(t types.Type, name string) *ssa.Function {
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			t = types.NewPointer(t)
		}
	}
	c.lockSSA.Lock()
	defer c.lockSSA.Unlock()
	ms := c.P.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if s := ms.At(i); s.Obj().Name() == name {
			return c.P.Prog.MethodValue(s)
		}
	}
	return nil
}

// Explore decides an obligation by exploring the abstract paths of a scenario.
func (c *Ctx) Explore(rule, construct string, pos token.Pos, cfg *absint.Config, scen func(s *Scn)) *Ob {
	if c.Only != "" && strings.Contains(c.Only, "@") {
		if want := c.Only[strings.Index(c.Only, "@")+1:]; !strings.Contains(construct, want) {
			return nil
		}
	}
	start := time.Now()
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = maxPaths()
	}
	var done atomic.Int64
	res := c.E.Explore(cfg, func(p *absint.Path) {
		s := &Scn{C: c, P: p}
		p.Data["scn.ctx"] = c
		scen(s)
		done.Add(1)
		if cfg.Threads && !s.NoLeakCheck {
			s.finish()
		}
	})
	o := &Ob{Rule: rule, Construct: construct, Pos: c.pos(pos), OK: true, Paths: res.Paths, Cut: res.Cut, Steps: res.Steps}
	if len(res.Order) > 0 {
		o.OK = false
		sort.Strings(res.Order)
		o.Detail = strings.Join(dedupe(res.Order, 4), "; ")
		o.Trace = res.Fails[res.Order[0]]
	} else if len(res.Stuck) > 0 {
		o.OK, o.Undecided = false, true
		o.Detail = "can't be decided: " + strings.Join(dedupe(res.Stuck, 3), "; ")
	} else if res.Over {
		o.OK, o.Undecided = false, true
		o.Detail = fmt.Sprintf("can't be decided: more than %d paths", res.Paths)
	} else if done.Load() == 0 {
		o.OK, o.Undecided = false, true
		o.Detail = fmt.Sprintf("can't be decided: no path completes (%d cut)", res.Cut)
	}
	if os.Getenv("SCV_TIME") == "2" {
		fmt.Fprintf(os.Stderr, "   %-50s %6.2fs %d paths %d cut %d done\n", construct, time.Since(start).Seconds(), res.Paths, res.Cut, done.Load())
	}
	c.add(o)
	return o
}

func dedupe(in []string, max int) []string {
	seen := map[string]bool{}
	var r []string
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	if len(r) > max {
		r = append(r[:max], fmt.Sprintf("and %d more", len(r)-max))
	}
	return r
}

func maxPaths() int {
	if n, err := strconv.Atoi(os.Getenv("SCV_PATHS")); err == nil {
		return n
	}
	return 400000
}
