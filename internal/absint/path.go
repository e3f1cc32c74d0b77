package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Event is something observable that happens on a path.
type Event struct {
	Kind  string // call, callback, store, mapset, mapdel, send, recv, close, select, go, lock, unlock, rlock, runlock, mutate, append
	Name  string // callee, label of location, ...
	Args  []Val
	Res   Val
	Pos   token.Pos
	Fn    *ssa.Function
	Held  map[string]string // locks held: label -> "w" or "r"
	Cell  *Cell
	Depth int
	Extra string
	Keys  []string // deep keys of Args at the time of the event
	Defer bool     // while running deferred functions
}

func (e *Event) String() string {
	parts := make([]string, len(e.Args))
	for i, a := range e.Args {
		parts[i] = Key(a)
	}
	return fmt.Sprintf("%s %s(%s) %s", e.Kind, e.Name, strings.Join(parts, ", "), e.Extra)
}

// Call describes a call that is about to be made.
type Call struct {
	P      *Path
	Name   string // full name of the callee, or iface method like "(pkg.Iface).Method", or "callback:"+key
	Fn     *ssa.Function
	Recv   Val
	Args   []Val // includes the receiver for static method calls
	Sig    *types.Signature
	Pos    token.Pos
	Caller *ssa.Function
}

// Config adjusts an exploration.
type Config struct {
	// Hooks are called instead of the function with the given full name, returning false continues with the default.
	Hooks map[string]func(c *Call) (Val, bool)
	// Hook is called for any call that isn't in Hooks.
	Hook func(c *Call) (Val, bool)
	// Oracle decides choices, returning false leaves it to the exploration.
	Oracle func(p *Path, key string, n int) (int, bool)
	// Rel decides the order of terms: -1,0,1.
	Rel func(p *Path, a, b Val) (int, bool)
	// Inline says whether to look into a function outside the module.
	Inline func(fn *ssa.Function) bool
	// NoInline says which functions in the module are opaque.
	NoInline func(fn *ssa.Function) bool
	MaxPaths int
	MaxLen   int // number of elements of unknown collections, default 2
	MaxLoop  int // number of unknown choices made by the same instruction in a frame before cutting the path, default 3
	MaxSteps int
	// MaxVisits is how often a block of a frame is run before cutting the path, at least and by default 400.
	MaxVisits int
	// OnLock is called after a lock has been acquired.
	OnLock func(p *Path, label, kind string)
	// OnUnlock is called before a lock is released.
	OnUnlock func(p *Path, label, kind string)
	// OnStore is called after each store
	OnStore func(p *Path, c *Cell, v Val, pos token.Pos)
	// NilDerefOfUnknown forks on whether symbolic pointers are nil when dereferenced instead of assuming they aren't.
	NilDerefOfUnknown func(key string) bool
	// Trace, print events
	Trace bool
	// TrackStores records store events
	TrackStores bool
	// Threads interprets go statements, channels and locks with abstract threads.
	Threads bool
	// Preempt is how many times a thread may lose control without blocking.
	Preempt int
	// PreemptAt says where.
	PreemptAt func(p *Path, t *Thread, what string) bool
	// PreemptTo says which threads may take control from another.
	PreemptTo func(t *Thread) bool
	// YieldAccess lets threads lose control before accesses to structs with a lock and to maps.
	YieldAccess bool
	// SchedChoice explores which of the runnable threads is next when one blocks.
	SchedChoice bool
	// SelectFirst takes the first ready case of select statements instead of exploring each.
	SelectFirst bool
	// NoTimers means time doesn't pass.
	NoTimers bool
	// SpareCap gives lists of copied messages, and what append makes, room for more elements than they have.
	SpareCap bool
	// Races looks for unordered accesses.
	Races  bool
	OnRace func(p *Path, label, a, b string)
	// Workers is how many paths are explored at the same time.
	Workers int
	// SkipInit leaves module level variables opaque.
	SkipInit bool
}

// Path is one abstract path.
type Path struct {
	Eng    *Engine
	Cfg    *Config
	Events []*Event
	Facts  []string // in the order they were decided
	Gos    []*FuncCall

	nextID  int
	memo    map[string]*Cell   // targets of symbolic pointers
	maps    map[string]*MapObj // symbolic maps
	slices  map[string]Val     // symbolic slices with a decided length
	bound   map[string]Const   // symbols known to be a constant
	facts   map[string]int
	rels    map[[2]string]uint8
	relVals map[string]Val
	globals map[*ssa.Global]*Cell
	inited  map[*ssa.Package]bool
	Held    map[string]string
	locks   map[string]int
	onces   map[string]bool
	choices []choice
	replay  []int
	depth   int
	steps   int
	symN    map[string]int
	stack   []*frame
	fails   []string
	quiet   int

	threads     []*Thread
	cur         *Thread
	rheld       map[string]int
	lockSt      map[string]*lockState
	ctxs        map[string]*ctxInfo
	syncVC      map[string]map[int]int
	counters    map[string]int
	timers      []*timer
	TimersFired []Val
	waitQ       []*Thread
	abort       any
	mainDead    bool
	preemptions int
	acc         map[any]*access
	atomics     map[string]Val
	// Data is for use by rules.
	Data map[string]any
}

type choice struct{ idx, n int }

// FuncCall is a function with the arguments it's called with.
type FuncCall struct {
	Fn   Val
	Args []Val
	Pos  token.Pos
	By   *ssa.Function
	Call *ssa.CallCommon
}

// Engine interprets a program
type Engine struct {
	Prog   *ssa.Program
	Module string // path prefix of packages that are looked into
	Impl   func(t types.Type, iface *types.Interface) bool
	Seen   sync.Map // functions that were interpreted
}

// Stuck is why a path couldn't be decided.
type Stuck struct{ Reason string }

type targetPanic struct {
	v      Val
	reason string
	pos    token.Pos
	fn     *ssa.Function
}

type cutPath struct{ reason string }
type infeasible struct{}

// Result of an exploration.
type Result struct {
	Paths  int
	Cut    int
	Steps  int
	Stuck  []string
	Over   bool
	Fails  map[string][]string // failure -> facts of one path
	Order  []string
	Exited int
}

// Explore runs scenario once for every abstract path, scenario has to be safe for concurrent use.
func (e *Engine) Explore(cfg *Config, scenario func(p *Path)) *Result {
	res := &Result{Fails: map[string][]string{}}
	max := cfg.MaxPaths
	if max == 0 {
		max = 20000
	}
	workers := cfg.Workers
	if workers == 0 {
		workers = runtime.GOMAXPROCS(0)
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := [][]int{nil}
	busy := 0
	firstOf := map[string][]int{}
	stuckOf := map[string]bool{}
	var failure any
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			for {
				for len(stack) == 0 && busy > 0 && failure == nil {
					cond.Wait()
				}
				if failure != nil || len(stack) == 0 {
					cond.Broadcast()
					return
				}
				if res.Paths >= max {
					res.Over = true
					stack = nil
					continue
				}
				prefix := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				busy++
				res.Paths++
				mu.Unlock()
				p, r := e.runPath(cfg, prefix, scenario)
				mu.Lock()
				busy--
				if r.crash != nil && failure == nil {
					failure = r.crash
				}
				res.Exited += r.exited
				res.Cut += r.cut
				res.Steps += p.steps
				if r.stuck != "" && !stuckOf[r.stuck] {
					stuckOf[r.stuck] = true
					res.Stuck = append(res.Stuck, r.stuck)
				}
				idx := make([]int, len(p.choices))
				for i, c := range p.choices {
					idx[i] = c.idx
				}
				for _, f := range p.fails {
					if old, ok := firstOf[f]; !ok || lexLess(idx, old) {
						if !ok {
							res.Order = append(res.Order, f)
						}
						firstOf[f] = idx
						res.Fails[f] = append([]string(nil), p.Facts...)
					}
				}
				for i := len(prefix); i < len(p.choices); i++ {
					for k := p.choices[i].n - 1; k > idx[i]; k-- {
						stack = append(stack, append(append(make([]int, 0, i+1), idx[:i]...), k))
					}
				}
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	if failure != nil {
		panic(failure)
	}
	sort.Strings(res.Order)
	sort.Strings(res.Stuck)
	return res
}

func lexLess(a, b []int) bool {
	for i := range a {
		if i >= len(b) {
			return false
		}
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

type pathEnd struct {
	exited, cut int
	stuck       string
	crash       any
}

func (e *Engine) runPath(cfg *Config, prefix []int, scenario func(p *Path)) (p *Path, res pathEnd) {
	p = e.newPath(cfg, prefix)
	defer func() {
		if r := recover(); r != nil {
			res.crash = r
			if _, ok := r.(interface{ Missing() string }); !ok {
				res.crash = fmt.Sprint(r, "\n", string(debug.Stack()))
			}
		}
	}()
	defer func() {
		r := recover()
		switch r := r.(type) {
		case nil:
			res.exited++
		case cutPath:
			res.cut++
		case infeasible:
		case Blocked:
			p.Fail("blocks forever: %s", r.Desc)
		case Stuck:
			res.stuck = r.Reason
		case targetPanic:
			// the scenario is expected to use TryCall if panics are of interest
			p.Fail("panics: %s in %s", r.reason, fnName(r.fn))
		default:
			panic(r)
		}
	}()
	if cfg.Threads {
		p.initThreads()
		defer p.endThreads()
	}
	scenario(p)
	return
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return f.String()
}

func (e *Engine) newPath(cfg *Config, replay []int) *Path {
	return &Path{
		Eng: e, Cfg: cfg,
		memo: map[string]*Cell{}, maps: map[string]*MapObj{}, slices: map[string]Val{},
		bound: map[string]Const{}, facts: map[string]int{}, rels: map[[2]string]uint8{}, relVals: map[string]Val{},
		globals: map[*ssa.Global]*Cell{}, inited: map[*ssa.Package]bool{},
		Held: map[string]string{}, locks: map[string]int{}, onces: map[string]bool{},
		symN: map[string]int{}, replay: append([]int(nil), replay...), Data: map[string]any{}, rheld: map[string]int{},
	}
}

// Fail records that this path breaks a rule.
func (p *Path) Fail(format string, args ...any) {
	p.fails = append(p.fails, fmt.Sprintf(format, args...))
}

// Cut abandons the path
func (p *Path) Cut(reason string) { panic(cutPath{reason}) }

// Stuck gives up on the path.
func (p *Path) Stuck(format string, args ...any) {
	panic(Stuck{fmt.Sprintf(format, args...) + p.where()})
}

func (p *Path) where() string {
	if len(p.stack) == 0 {
		return ""
	}
	f := p.stack[len(p.stack)-1]
	return " in " + f.fn.String()
}

// Assume abandons the path if cond is false.
func (p *Path) Assume(cond bool) {
	if !cond {
		panic(infeasible{})
	}
}

// debugChoices prints every choice, to find out why there are so many.
var debugChoices = os.Getenv("SCV_CHOICES") != ""

// Choose partitions the trace.
func (p *Path) Choose(key string, n int) int {
	if i, ok := p.facts[key]; ok {
		return i
	}
	if p.Cfg.Oracle != nil {
		if i, ok := p.Cfg.Oracle(p, key, n); ok {
			p.facts[key] = i
			p.Facts = append(p.Facts, fmt.Sprintf("%s=%d", key, i))
			return i
		}
	}
	if len(p.stack) > 0 {
		f := p.stack[len(p.stack)-1]
		if f.choiceN == nil {
			f.choiceN = map[ssa.Instruction]int{}
		}
		f.choiceN[f.cur]++
		lim := p.Cfg.MaxLoop
		if lim == 0 {
			lim = 3
		}
		if f.choiceN[f.cur] > lim {
			panic(cutPath{"too many choices by " + fmt.Sprint(f.cur)})
		}
	}
	idx := 0
	if k := len(p.choices); k < len(p.replay) {
		idx = p.replay[k]
	}
	p.choices = append(p.choices, choice{idx, n})
	if debugChoices {
		where := ""
		if len(p.stack) > 0 {
			f := p.stack[len(p.stack)-1]
			where = fmt.Sprint(f.fn, ": ", f.cur)
		}
		fmt.Fprintf(os.Stderr, "choice %d of %d by %s: %s\n", idx, n, where, key)
	}
	p.facts[key] = idx
	p.Facts = append(p.Facts, fmt.Sprintf("%s=%d", key, idx))
	return idx
}

// ChooseBool is Choose for predicates, true is explored first.
func (p *Path) ChooseBool(key string) bool { return p.Choose(key, 2) == 0 }

// Fact returns what was decided for key.
func (p *Path) Fact(key string) (int, bool) {
	i, ok := p.facts[key]
	return i, ok
}

// SetFact decides a choice.
func (p *Path) SetFact(key string, i int) { p.facts[key] = i }

func (p *Path) newCell(label string, t types.Type) *Cell {
	p.nextID++
	return &Cell{ID: p.nextID, Label: label, T: t}
}

// Fresh returns name with a number that makes it unique.
func (p *Path) Fresh(name string) string {
	p.symN[name]++
	return fmt.Sprintf("%s#%d", name, p.symN[name])
}

// NewSym creates a symbol, or struct with symbolic fields.
func (p *Path) NewSym(key string, t types.Type) Val { return p.symValue(key, t, nil) }

// NonNilSym creates a symbol that isn't nil.
func (p *Path) NonNilSym(key string, t types.Type) Val {
	v := p.symValue(key, t, nil)
	if s, ok := v.(*Sym); ok {
		s.NonNil = true
		p.facts["nil:"+key] = 1
	}
	return v
}

func (p *Path) symValue(key string, t types.Type, home *Cell) Val {
	if t != nil {
		switch u := t.Underlying().(type) {
		case *types.Struct, *types.Array:
			_ = u
			label := key
			if home != nil {
				label = home.Label
			}
			return &StructV{T: t, Base: key, Src: label, F: map[int]*Cell{}, p: p, home: home}
		case *types.Tuple:
			tv := make(TupleV, u.Len())
			for i := range tv {
				tv[i] = p.symValue(fmt.Sprintf("%s.%d", key, i), u.At(i).Type(), nil)
			}
			return tv
		}
	}
	return &Sym{Key: key, T: t}
}

// Zero returns the zero value of t.
func (p *Path) Zero(t types.Type) Val { return p.zero(t, nil) }

func (p *Path) zero(t types.Type, home *Cell) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Const{t, constant.MakeBool(false)}
		case u.Info()&types.IsInteger != 0:
			return Const{t, constant.MakeInt64(0)}
		case u.Info()&types.IsFloat != 0:
			return Const{t, constant.ToFloat(constant.MakeInt64(0))}
		case u.Info()&types.IsString != 0:
			return Const{t, constant.MakeString("")}
		case u.Info()&types.IsComplex != 0:
			return Const{t, constant.ToComplex(constant.MakeInt64(0))}
		}
		return Const{t, nil}
	case *types.Struct, *types.Array:
		label := ""
		if home != nil {
			label = home.Label
		}
		return &StructV{T: t, Src: label, F: map[int]*Cell{}, p: p, home: home}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = p.zero(u.At(i).Type(), nil)
		}
		return tv
	}
	return Const{t, nil}
}

// Alloc creates a new location.
func (p *Path) Alloc(t types.Type, label string) Ptr {
	c := p.newCell(p.Fresh(label), t)
	c.Fresh = true
	c.lazy = func() Val { return p.zero(t, c) }
	c.v = c.lazy()
	return Ptr{types.NewPointer(t), c}
}

func (p *Path) copyVal(v Val, home *Cell) Val {
	if sv, ok := v.(*StructV); ok {
		label := sv.Src
		if home != nil {
			label = home.Label
		}
		return sv.copyTo(home, label)
	}
	return v
}

// Deref returns the location v points to.
func (p *Path) Deref(v Val) *Cell {
	v = p.Resolve(v)
	switch v := v.(type) {
	case Ptr:
		return v.C
	case IfaceV:
		return p.Deref(v.V)
	case Const:
		if v.V == nil {
			p.panicf("nil dereference")
		}
	case *Sym:
		if f, ok := p.facts["nil:"+v.Key]; ok && f == 0 {
			p.panicf("nil dereference of %s", v.Key)
		}
		if _, ok := p.facts["nil:"+v.Key]; !ok && !v.NonNil {
			if p.Cfg.NilDerefOfUnknown != nil && p.Cfg.NilDerefOfUnknown(v.Key) {
				if p.ChooseBool("nil:" + v.Key) {
					p.panicf("nil dereference of %s", v.Key)
				}
			}
			p.facts["nil:"+v.Key] = 1
		}
		if c, ok := p.memo[v.Key]; ok {
			return c
		}
		var et types.Type
		if v.T != nil {
			if pt, ok := v.T.Underlying().(*types.Pointer); ok {
				et = pt.Elem()
			}
		}
		c := p.newCell(v.Key, et)
		c.FromSym = v.Key
		if et == nil {
			// message of a type we don't know yet
			c.v = &StructV{Base: "*" + v.Key, Src: v.Key, F: map[int]*Cell{}, p: p, home: c}
		} else {
			switch et.Underlying().(type) {
			case *types.Struct, *types.Array:
				c.v = &StructV{T: et, Base: v.Key, Src: v.Key, F: map[int]*Cell{}, p: p, home: c}
			default:
				c.lazy = func() Val { return p.symValue("*"+v.Key, et, c) }
			}
		}
		p.memo[v.Key] = c
		return c
	}
	p.Stuck("deref of %T %s", v, Key(v))
	return nil
}

func (p *Path) panicf(format string, args ...any) {
	tp := targetPanic{reason: fmt.Sprintf(format, args...)}
	if len(p.stack) > 0 {
		f := p.stack[len(p.stack)-1]
		tp.fn = f.fn
		if f.cur != nil {
			tp.pos = f.cur.Pos()
		}
	}
	panic(tp)
}

// Resolve replaces symbols known to be a constant.
func (p *Path) Resolve(v Val) Val {
	if s, ok := v.(*Sym); ok {
		if c, ok := p.bound[s.Key]; ok {
			return Const{s.T, c.V}
		}
		if f, ok := p.facts["nil:"+s.Key]; ok && f == 0 {
			return Const{s.T, nil}
		}
	}
	return v
}

// Bind makes a symbol known to be a constant.
func (p *Path) Bind(key string, c Const) { p.bound[key] = c }

// IsNil decides whether v is nil.
func (p *Path) IsNil(v Val) bool {
	v = p.Resolve(v)
	switch v := v.(type) {
	case Const:
		return v.V == nil
	case *Sym:
		if v.NonNil {
			return false
		}
		if p.Cfg.Oracle == nil || true {
			if s, ok := p.slices[v.Key]; ok {
				if sl, ok := s.(SliceV); ok && sl.Hi > sl.Lo {
					return false
				}
			}
			if c, ok := p.memo[v.Key]; ok && c != nil {
				if _, ok := p.facts["nil:"+v.Key]; ok {
					return p.facts["nil:"+v.Key] == 0
				}
			}
		}
		// nil explored second
		if _, ok := p.facts["nil:"+v.Key]; !ok {
			return p.Choose("nil:"+v.Key, 2) == 0
		}
		return p.facts["nil:"+v.Key] == 0
	case IfaceV:
		return false // an interface holding a nil pointer isn't nil
	}
	return false
}

// Truth decides whether a bool is true.
func (p *Path) Truth(v Val) bool {
	v = p.Resolve(v)
	if b, ok := BoolConst(v); ok {
		return b
	}
	if s, ok := v.(*Sym); ok {
		switch s.Op {
		case "!":
			return !p.Truth(s.Args[0])
		}
		b := p.ChooseBool("true:" + s.Key)
		p.bound[s.Key] = MkBool(b)
		return b
	}
	p.Stuck("truth of %T", v)
	return false
}

const (
	relLT = 1
	relEQ = 2
	relGT = 4
)

func relKey(a, b string) ([2]string, bool) {
	if a <= b {
		return [2]string{a, b}, false
	}
	return [2]string{b, a}, true
}

func flip(m uint8) uint8 {
	r := m & relEQ
	if m&relLT != 0 {
		r |= relGT
	}
	if m&relGT != 0 {
		r |= relLT
	}
	return r
}

// relMask returns which relations between a and b are possible.
func (p *Path) relMask(a, b Val) uint8 {
	ka, kb := Key(a), Key(b)
	if ka == kb {
		return relEQ
	}
	ca, aok := a.(Const)
	cb, bok := b.(Const)
	if aok && bok && ca.V != nil && cb.V != nil && ca.V.Kind() != constant.Bool {
		switch {
		case constant.Compare(ca.V, token.LSS, cb.V):
			return relLT
		case constant.Compare(ca.V, token.EQL, cb.V):
			return relEQ
		default:
			return relGT
		}
	}
	p.relVals[ka], p.relVals[kb] = a, b
	k, fl := relKey(ka, kb)
	m, ok := p.rels[k]
	if !ok {
		m = relLT | relEQ | relGT
	}
	if fl {
		m = flip(m)
	}
	if m == relLT || m == relEQ || m == relGT {
		return m
	}
	// infer through definite relations
	m &= p.infer(ka, kb)
	return m
}

func (p *Path) infer(from, to string) uint8 {
	type edge struct {
		to     string
		strict bool
	}
	// build graph of <= edges
	g := map[string][]edge{}
	var nodes []string
	for k := range p.relVals {
		nodes = append(nodes, k)
	}
	sort.Strings(nodes)
	var consts []string
	for _, n := range nodes {
		if c, ok := p.relVals[n].(Const); ok && c.V != nil && (c.V.Kind() == constant.Int || c.V.Kind() == constant.Float || c.V.Kind() == constant.String) {
			consts = append(consts, n)
		}
	}
	for _, x := range consts {
		for _, y := range consts {
			if x != y && comparable2(p.relVals[x], p.relVals[y]) && constant.Compare(p.relVals[x].(Const).V, token.LSS, p.relVals[y].(Const).V) {
				g[x] = append(g[x], edge{y, true})
			}
		}
	}
	for k, m := range p.rels {
		a, b := k[0], k[1]
		switch m {
		case relLT:
			g[a] = append(g[a], edge{b, true})
		case relLT | relEQ:
			g[a] = append(g[a], edge{b, false})
		case relGT:
			g[b] = append(g[b], edge{a, true})
		case relGT | relEQ:
			g[b] = append(g[b], edge{a, false})
		case relEQ:
			g[a] = append(g[a], edge{b, false})
			g[b] = append(g[b], edge{a, false})
		}
	}
	reach := func(s, t string) (ok, strict bool) {
		type st struct {
			n      string
			strict bool
		}
		seen := map[st]bool{}
		q := []st{{s, false}}
		for len(q) > 0 {
			c := q[0]
			q = q[1:]
			if seen[c] {
				continue
			}
			seen[c] = true
			if c.n == t {
				ok = true
				if c.strict {
					strict = true
				}
			}
			for _, e := range g[c.n] {
				q = append(q, st{e.to, c.strict || e.strict})
			}
		}
		return
	}
	var m uint8 = relLT | relEQ | relGT
	if ok, strict := reach(from, to); ok {
		m &^= relGT
		if strict {
			m &^= relEQ
		}
	}
	if ok, strict := reach(to, from); ok {
		m &^= relLT
		if strict {
			m &^= relEQ
		}
	}
	return m
}

// comparable2 says whether two constants have an order.
func comparable2(x, y Val) bool {
	return (x.(Const).V.Kind() == constant.String) == (y.(Const).V.Kind() == constant.String)
}

func (p *Path) narrow(a, b Val, m uint8) {
	ka, kb := Key(a), Key(b)
	k, fl := relKey(ka, kb)
	if fl {
		m = flip(m)
	}
	if cur, ok := p.rels[k]; ok {
		m &= cur
	}
	p.rels[k] = m
	if m == relEQ {
		if s, ok := a.(*Sym); ok {
			if c, ok := b.(Const); ok && c.V != nil {
				p.bound[s.Key] = c
			}
		}
		if s, ok := b.(*Sym); ok {
			if c, ok := a.(Const); ok && c.V != nil {
				p.bound[s.Key] = c
			}
		}
	}
}

// Test decides whether a and b are in one of the relations of want.
func (p *Path) test(a, b Val, want uint8) bool {
	a, b = p.Resolve(a), p.Resolve(b)
	m := p.relMask(a, b)
	if m&want == 0 {
		return false
	}
	if m&^want == 0 {
		return true
	}
	if p.Cfg.Rel != nil {
		if r, ok := p.Cfg.Rel(p, a, b); ok {
			bit := uint8(relEQ)
			if r < 0 {
				bit = relLT
			} else if r > 0 {
				bit = relGT
			}
			p.narrow(a, b, bit)
			return bit&want != 0
		}
	}
	ka, kb := Key(a), Key(b)
	w := want
	if ka > kb {
		ka, kb = kb, ka
		w = flip(want)
	}
	ops := map[uint8]string{relLT: "<", relEQ: "==", relGT: ">", relLT | relEQ: "<=", relGT | relEQ: ">=", relLT | relGT: "!="}
	// canonical form so x<y and !(x>=y) are the same choice
	neg := false
	switch w {
	case relGT:
		w, neg = relLT|relEQ, true
	case relGT | relEQ:
		w, neg = relLT, true
	case relLT | relGT:
		w, neg = relEQ, true
	}
	r := p.ChooseBool("rel:" + ka + ops[w] + kb)
	if neg {
		r = !r
	}
	if r {
		p.narrow(a, b, m&want)
	} else {
		p.narrow(a, b, m&^want)
	}
	return r
}

// Less decides a < b.
func (p *Path) Less(a, b Val) bool { return p.test(a, b, relLT) }

// Equal decides a == b.
func (p *Path) Equal(a, b Val) bool {
	a, b = p.Resolve(a), p.Resolve(b)
	if IsNilConst(a) {
		return p.IsNil(b)
	}
	if IsNilConst(b) {
		return p.IsNil(a)
	}
	if ia, ok := a.(IfaceV); ok {
		if ib, ok := b.(IfaceV); ok && ia.T != nil && ib.T != nil && !types.Identical(ia.T, ib.T) {
			return false
		}
	}
	a, b = Unwrap(a), Unwrap(b)
	_, fa := a.(FloatV)
	_, fb := b.(FloatV)
	if fa || fb {
		x, ok1 := FloatOf(a)
		y, ok2 := FloatOf(b)
		if ok1 && ok2 {
			return x == y
		}
	}
	ka, kb := Key(a), Key(b)
	if ka == kb {
		return true
	}
	ca, aok := a.(Const)
	cb, bok := b.(Const)
	if aok && bok {
		if ca.V == nil || cb.V == nil {
			return ca.V == nil && cb.V == nil
		}
		if ca.V.Kind() == constant.Bool || cb.V.Kind() == constant.Bool {
			return constant.Compare(ca.V, token.EQL, cb.V)
		}
	}
	if _, ok := BoolConst(a); ok {
		t := p.Truth(b)
		return t == constant.BoolVal(ca.V)
	}
	if _, ok := BoolConst(b); ok {
		t := p.Truth(a)
		return t == constant.BoolVal(cb.V)
	}
	switch a := a.(type) {
	case Ptr:
		switch b := b.(type) {
		case Ptr:
			return a.C == b.C
		case *Sym:
			if a.C.Fresh {
				return false
			}
		}
	case *Sym:
		switch b := b.(type) {
		case Ptr:
			if b.C.Fresh {
				return false
			}
		case *Sym:
			if a.Op == "pm" && b.Op == "pm" {
				return false // keys identify objects of the protobuf model
			}
			// distinct errors created by the code
			if a.Op != "" && b.Op != "" && p.isFreshErr(a) && p.isFreshErr(b) {
				return false
			}
			if p.isFreshErr(a) && strings.HasPrefix(b.Key, "global:") || p.isFreshErr(b) && strings.HasPrefix(a.Key, "global:") {
				return false
			}
			if strings.HasPrefix(a.Key, "global:") && strings.HasPrefix(b.Key, "global:") || a.Op == "descriptor" && b.Op == "descriptor" {
				return false
			}
		}
	case ChanV:
		if b, ok := b.(ChanV); ok {
			return a.C == b.C
		}
		return false
	case *StructV:
		if b, ok := b.(*StructV); ok {
			n := a.numFields()
			eq := true
			for i := 0; i < n; i++ {
				if !p.Equal(a.Field(i).Load(), b.Field(i).Load()) {
					eq = false
					break
				}
			}
			return eq
		}
	}
	return p.test(a, b, relEQ)
}

func (p *Path) isFreshErr(s *Sym) bool {
	switch s.Op {
	case "status.Error", "errors.New", "fmt.Errorf":
		return true
	}
	return false
}

func (p *Path) event(e *Event) *Event {
	if p.quiet > 0 {
		return e
	}
	if len(p.stack) > 0 {
		f := p.stack[len(p.stack)-1]
		e.Fn = f.fn
		if e.Pos == token.NoPos && f.cur != nil {
			e.Pos = f.cur.Pos()
		}
		for _, fr := range p.stack {
			if fr.inDefers {
				e.Defer = true
			}
		}
	}
	e.Held = map[string]string{}
	for k, v := range p.Held {
		e.Held[k] = v
	}
	for _, a := range e.Args {
		e.Keys = append(e.Keys, DeepKey(a))
	}
	e.Depth = len(p.stack)
	p.Events = append(p.Events, e)
	if p.Cfg.Trace {
		fmt.Println("   ", e)
	}
	return e
}

// AddEvent records an event.
func (p *Path) AddEvent(e *Event) *Event { return p.event(e) }

// Quiet runs f without recording events.
func (p *Path) Quiet(f func()) {
	p.quiet++
	defer func() { p.quiet-- }()
	f()
}

// EventsOf returns events of the given kind whose name contains name.
func (p *Path) EventsOf(kind, name string) []*Event {
	var r []*Event
	for _, e := range p.Events {
		if e.Kind == kind && strings.Contains(e.Name, name) {
			r = append(r, e)
		}
	}
	return r
}

// Sym creates an opaque term of the given operation.
func (p *Path) Term(op string, t types.Type, args ...Val) Val {
	keys := make([]string, len(args))
	for i, a := range args {
		keys[i] = DeepKey(a)
	}
	v := p.symValue(op+"("+strings.Join(keys, ",")+")", t, nil)
	if s, ok := v.(*Sym); ok {
		s.Op, s.Args = op, args
	}
	return v
}

// MapOf materialises a symbolic map.
func (p *Path) MapOf(v Val) *MapObj {
	v = p.Resolve(v)
	switch v := v.(type) {
	case MapV:
		return v.M
	case *Sym:
		if m, ok := p.maps[v.Key]; ok {
			return m
		}
		p.nextID++
		m := &MapObj{ID: p.nextID, Label: v.Key, Base: v.Key}
		p.maps[v.Key] = m
		return m
	}
	return nil
}

// SliceOf decides the length of a symbolic slice.
func (p *Path) SliceOf(v Val) (SliceV, bool) {
	v = p.Resolve(v)
	switch v := v.(type) {
	case SliceV:
		return v, true
	case Const:
		return SliceV{T: v.T, Arr: &ArrObj{}}, true
	case *Sym:
		if s, ok := p.slices[v.Key]; ok {
			return s.(SliceV), true
		}
		max := p.Cfg.MaxLen
		if max == 0 {
			max = 2
		}
		n := p.Choose("len:"+v.Key, max+1)
		arr := &ArrObj{Label: v.Key}
		var et types.Type
		if v.T != nil {
			if st, ok := v.T.Underlying().(*types.Slice); ok {
				et = st.Elem()
			}
		}
		for i := 0; i < n; i++ {
			c := p.newCell(fmt.Sprintf("%s[%d]", v.Key, i), et)
			cc := c
			c.lazy = func() Val { return p.symValue(cc.Label, et, cc) }
			arr.Cells = append(arr.Cells, c)
		}
		s := SliceV{T: v.T, Arr: arr, Lo: 0, Hi: n, Cap: -1}
		p.slices[v.Key] = s
		return s, true
	}
	return SliceV{}, false
}

// MkSlice creates a slice with the given elements.
func (p *Path) MkSlice(t types.Type, label string, elems ...Val) SliceV {
	arr := &ArrObj{Label: p.Fresh(label), Fresh: true}
	et := t.Underlying().(*types.Slice).Elem()
	for i, e := range elems {
		c := p.newCell(fmt.Sprintf("%s[%d]", arr.Label, i), et)
		c.Fresh = true
		c.Set(p, e)
		if sv, ok := e.(*StructV); ok {
			c.v = sv.copyTo(c, c.Label)
		}
		arr.Cells = append(arr.Cells, c)
	}
	return SliceV{T: t, Arr: arr, Lo: 0, Hi: len(elems), Cap: len(elems)}
}

// MkMap is a new map.
func (p *Path) MkMap(t types.Type, label string) MapV {
	p.nextID++
	return MapV{t, &MapObj{ID: p.nextID, Label: p.Fresh(label), Fresh: true}}
}

// MapPut stores an entry.
func (p *Path) MapPut(m, key, v Val) { p.mapUpdate(m, key, v, 0) }
