package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"scverify/internal/absint"
	"scverify/internal/load"
)

const routerPkg = "pkg/router"
const grpcNS = "google.golang.org/grpc"

func init() {
	register("C12", "registry", "The registry of a router is a map with a fallback and a factory, every transition is reported once", c12Registry)
	register("C12", "registry-race", "Concurrent uses of the registry take effect one at a time, a single client of the factory is committed", c12RegistryRace)
	register("C12", "every-service", "Every service has a router and a wrapper, every method is routed", c12Services)
	register("C12", "forward", "A request is forwarded exactly once to the client of its name, everything passes through unaltered", c12Forward)
	register("C12", "typed", "The typed registry of each router accepts clients of its service only and agrees with the registry", c12Typed)
	register("C12", "wrapper", "Each wrapper calls its server with the descriptor of its service and can be unwrapped", c12Wrapper)
	register("C12", "default-name", "The default name is used for requests without a name only", c12DefaultName)
	register("C12", "generated", "The routers and wrappers are what the generators produce", c12Generated)
}

// --- services

// rservice is a gRPC service with its generated client and server.
type rservice struct {
	pkg            *types.Package
	name           string // OnOffApi
	server, client *types.Named
	methods        []*rmethod
}

type rmethod struct {
	name      string
	streaming bool
	req, resp types.Type // *GetOnOffRequest
	sig       *types.Signature
}

// grpcServices finds the trait services, they are in the API and in the trait packages.
func (c *Ctx) grpcServices() []*rservice {
	var r []*rservice
	for path, pkg := range c.P.All {
		if !strings.HasSuffix(path, "sc-api/go/traits") && !strings.HasPrefix(path, load.Module+"/pkg/trait/") {
			continue
		}
		if pkg.Types == nil {
			continue
		}
		scope := pkg.Types.Scope()
		for _, n := range scope.Names() {
			name := strings.TrimSuffix(n, "_ServiceDesc")
			if name == n {
				continue
			}
			sv, _ := scope.Lookup(name + "Server").(*types.TypeName)
			cl, _ := scope.Lookup(name + "Client").(*types.TypeName)
			if sv == nil || cl == nil {
				panic(missing{"server or client of " + n})
			}
			s := &rservice{pkg: pkg.Types, name: name, server: sv.Type().(*types.Named), client: cl.Type().(*types.Named)}
			it := s.server.Underlying().(*types.Interface)
			for i := 0; i < it.NumMethods(); i++ {
				m := it.Method(i)
				if !m.Exported() {
					continue
				}
				sig := m.Type().(*types.Signature)
				rm := &rmethod{name: m.Name(), sig: sig}
				switch {
				case sig.Params().Len() == 2 && sig.Results().Len() == 2: // ctx, req
					rm.req, rm.resp = sig.Params().At(1).Type(), sig.Results().At(0).Type()
				case sig.Params().Len() == 2 && sig.Results().Len() == 1: // req, stream
					rm.streaming = true
					rm.req = sig.Params().At(0).Type()
				default:
					panic(missing{"shape of " + name + "." + m.Name()})
				}
				s.methods = append(s.methods, rm)
			}
			r = append(r, s)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id() < r[j].id() })
	return r
}

func (s *rservice) id() string { return s.pkg.Name() + "." + s.name }

// routerOf finds the router of a service, it's a server of the service that embeds a router.Router.
func (c *Ctx) routersOf(s *rservice) []*types.Named {
	want := c.Type(routerPkg, "Router")
	var r []*types.Named
	for path, pkg := range c.P.ByPath {
		if !strings.HasPrefix(path, load.Module+"/pkg/trait/") {
			continue
		}
		scope := pkg.Types.Scope()
		for _, n := range scope.Names() {
			tn, ok := scope.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := nt.Underlying().(*types.Struct)
			if !ok || !types.Implements(types.NewPointer(nt), s.server.Underlying().(*types.Interface)) {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Embedded() && types.Identical(st.Field(i).Type(), want) {
					r = append(r, nt)
				}
			}
		}
	}
	return r
}

// funcsWhere finds package level functions of the package of t.
func (c *Ctx) funcsWhere(pkg *types.Package, ok func(f *types.Func, sig *types.Signature) bool) []*ssa.Function {
	var r []*ssa.Function
	scope := pkg.Scope()
	for _, n := range scope.Names() {
		f, isF := scope.Lookup(n).(*types.Func)
		if isF && f.Exported() && ok(f, f.Type().(*types.Signature)) {
			r = append(r, c.P.Prog.FuncValue(f))
		}
	}
	return r
}

// newRouterOf finds the constructor of a router.
func (c *Ctx) newRouterOf(rt *types.Named) *ssa.Function {
	fs := c.funcsWhere(rt.Obj().Pkg(), func(f *types.Func, sig *types.Signature) bool {
		return sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), types.NewPointer(rt)) && sig.Variadic() && sig.Params().Len() == 1
	})
	if len(fs) != 1 {
		panic(missing{"constructor of " + rt.String()})
	}
	return fs[0]
}

// wrappersOf finds the functions that wrap servers of the service.
func (c *Ctx) wrappersOf(s *rservice) []*ssa.Function {
	var r []*ssa.Function
	for path, pkg := range c.P.ByPath {
		if !strings.HasPrefix(path, load.Module+"/pkg/trait/") {
			continue
		}
		r = append(r, c.funcsWhere(pkg.Types, func(f *types.Func, sig *types.Signature) bool {
			return sig.Params().Len() == 1 && sig.Results().Len() == 1 && types.Identical(sig.Params().At(0).Type(), s.server) &&
				types.Implements(sig.Results().At(0).Type(), s.client.Underlying().(*types.Interface)) &&
				types.NewMethodSet(sig.Results().At(0).Type()).Lookup(nil, "UnwrapServer") != nil
		})...)
	}
	return r
}

func c12Services(c *Ctx) {
	svcs := c.grpcServices()
	n := 0
	for _, s := range svcs {
		rs, ws := c.routersOf(s), c.wrappersOf(s)
		c.Ob("every-service", s.id()+" router", s.server.Obj().Pos(), len(rs) == 1, "%d routers implement %sServer, want 1", len(rs), s.name)
		c.Ob("every-service", s.id()+" wrapper", s.server.Obj().Pos(), len(ws) == 1, "%d functions wrap %sServer, want 1", len(ws), s.name)
		for _, rt := range rs {
			for _, m := range s.methods {
				n++
				fn := c.P.Prog.LookupMethod(types.NewPointer(rt), rt.Obj().Pkg(), m.name)
				// a promoted method of the Unimplemented server, or of anything else, isn't routed by this type
				sel := types.NewMethodSet(types.NewPointer(rt)).Lookup(rt.Obj().Pkg(), m.name)
				ok := fn != nil && sel != nil && !strings.Contains(sel.Obj().(*types.Func).FullName(), "Unimplemented")
				c.Ob("every-service", s.id()+"."+m.name, rt.Obj().Pos(), ok, "%s isn't routed, requests fail with Unimplemented", m.name)
			}
		}
	}
	c.Count("services", len(svcs))
	c.Count("methods", n)
}

// --- registry

type regClient struct{ v Val }

type regModel struct {
	m map[string]string // name -> key of the client
}

type regChange struct{ name, old, new, auto string }

func (ch regChange) String() string {
	return fmt.Sprintf("{%s: %s -> %s auto=%s}", ch.name, ch.old, ch.new, ch.auto)
}

// reg is a router with a log of what it does.
type reg struct {
	s        *Scn
	v        Val
	log      []regChange
	made     map[string][]string // clients made by the factory by name
	fellback map[string]string
	asked    int
}

func clientKey(s *Scn, v Val) string {
	if v == nil {
		return "nil"
	}
	v = s.P.Resolve(v)
	if absint.IsNilConst(v) {
		return "nil"
	}
	return absint.Key(absint.Unwrap(v))
}

func (s *Scn) anyClient(label string) Val {
	return absint.IfaceV{T: types.NewPointer(s.C.Type(routerPkg, "Change")), V: s.P.Alloc(s.C.Type(routerPkg, "Change"), label)}
}

// newReg creates a router. The kinds of fallback and factory are: 0 none, 1 a client, 2 an error, 3 nothing, 4 a client for "a" only.
func (s *Scn) newReg(fallback, factory int, onChange bool) *reg {
	r := &reg{s: s, made: map[string][]string{}, fellback: map[string]string{}}
	source := func(kind int, made func(name, key string)) Val {
		n := 0
		return s.Native("source", func(args []Val) Val {
			name, _ := absint.StringConst(s.P.Resolve(args[0]))
			r.asked++
			k := kind
			if k == 4 && name != "a" {
				k = 3
			}
			anyT := types.NewInterfaceType(nil, nil)
			switch k {
			case 1, 4:
				n++
				v := s.anyClient(s.P.Fresh(fmt.Sprintf("client%d of %s", n, name)))
				made(name, clientKey(s, v))
				s.P.Yield("made") // other goroutines may run while the client is created
				return absint.TupleV{v, absint.MkNil(errType)}
			case 2:
				return absint.TupleV{absint.MkNil(anyT), s.P.MkErr(absint.MkInt(13), absint.MkString("can't connect"))}
			}
			return absint.TupleV{absint.MkNil(anyT), absint.MkNil(errType)}
		})
	}
	var opts []Val
	if fallback != 0 {
		opts = append(opts, s.F(routerPkg, "WithFallback", source(fallback, func(name, key string) { r.fellback[key] = name })))
	}
	if factory != 0 {
		opts = append(opts, s.F(routerPkg, "WithFactory", source(factory, func(name, key string) { r.made[name] = append(r.made[name], key) })))
	}
	if onChange {
		opts = append(opts, s.F(routerPkg, "WithOnChange", s.Native("onChange", func(args []Val) Val {
			r.log = append(r.log, s.regChange(args[0]))
			return absint.TupleV{}
		})))
	}
	r.v = s.Call(s.C.Fn(routerPkg, "NewRouter"), s.variadic(s.C.Fn(routerPkg, "NewRouter"), opts)...)[0]
	return r
}

func (s *Scn) regChange(v Val) regChange {
	sv := s.P.Resolve(v).(*absint.StructV)
	field := func(name string) Val {
		st := sv.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return s.P.Resolve(sv.Field(i).Load())
			}
		}
		panic(missing{"router.Change." + name})
	}
	str, _ := absint.StringConst(field("Name"))
	return regChange{name: str, old: clientKey(s, field("Old")), new: clientKey(s, field("New")), auto: absint.Key(field("Auto"))}
}

func (r *reg) call(method string, args ...Val) []Val {
	v := r.s.P.Resolve(r.v)
	iv, ok := v.(absint.IfaceV)
	if !ok {
		r.s.Stop("NewRouter returns %s", absint.Key(v))
	}
	return r.s.Call(r.s.C.methodOf(iv.T, method), append([]Val{iv.V}, args...)...)
}

// regOp is an operation with its result.
type regOp struct {
	kind, name string
	client     Val // of Add
	res        string
	done       bool
}

func (o *regOp) String() string {
	r := o.kind + "(" + o.name
	return r + ")=" + o.res
}

func (r *reg) do(o *regOp) {
	s := r.s
	name := absint.MkString(o.name)
	switch o.kind {
	case "Add":
		o.res = clientKey(s, r.call("Add", name, o.client)[0])
	case "Remove":
		o.res = clientKey(s, r.call("Remove", name)[0])
	case "Has":
		o.res = absint.Key(s.P.Resolve(r.call("Has", name)[0]))
	case "Get":
		out := r.call("Get", name)
		o.res = clientKey(s, out[0])
		if code := s.Code(out[1]); code != "OK" {
			o.res = "error " + code
		}
	}
	o.done = true
}

// regSpec is what a registry does.
type regSpec struct {
	m   map[string]string
	log []regChange
}

func (sp *regSpec) clone() *regSpec {
	n := &regSpec{m: map[string]string{}, log: append([]regChange{}, sp.log...)}
	for k, v := range sp.m {
		n.m[k] = v
	}
	return n
}

func orNil(s string) string {
	if s == "" {
		return "nil"
	}
	return s
}

// apply does an operation, returns why its result can't be.
func (sp *regSpec) apply(r *reg, o *regOp, fallback, factory int, notFound string) string {
	old := sp.m[o.name]
	provides := func(kind int) bool { return kind == 1 || kind == 4 && o.name == "a" }
	want := func(w string) string {
		if o.res != w {
			return fmt.Sprintf("%s, want %s", o, w)
		}
		return ""
	}
	switch o.kind {
	case "Add":
		key := clientKey(r.s, o.client)
		sp.m[o.name] = key
		sp.log = append(sp.log, regChange{o.name, orNil(old), key, "false"})
		return want(orNil(old))
	case "Remove":
		if old != "" {
			sp.log = append(sp.log, regChange{o.name, old, "nil", "false"})
		}
		delete(sp.m, o.name)
		return want(orNil(old))
	case "Has":
		return want(fmt.Sprint(old != ""))
	case "Get":
		switch {
		case old != "":
			return want(old)
		case provides(fallback):
			if r.fellback[o.res] != o.name {
				return fmt.Sprintf("%s isn't the client of the fallback", o)
			}
			return ""
		case provides(factory):
			for _, k := range r.made[o.name] {
				if k == o.res {
					sp.m[o.name] = k
					sp.log = append(sp.log, regChange{o.name, "nil", k, "true"})
					return ""
				}
			}
			return fmt.Sprintf("%s isn't a client of the factory", o)
		}
		return want("error " + notFound)
	}
	return "?"
}

func sortedChanges(l []regChange) string {
	var r []string
	for _, x := range l {
		r = append(r, x.String())
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func c12Cfg() *absint.Config {
	return &absint.Config{Threads: true, NoTimers: true, MaxSteps: 2000000}
}

// nameB is a name that is only the same as "a" for those who change names.
const nameB = "A /ä"

const codeNotFound = "NotFound"

func c12Registry(c *Ctx) {
	pos := c.Fn(routerPkg, "NewRouter").Pos()
	n := 3
	if c.Tier == "thorough" {
		n = 4
	}
	kinds := []string{"Add", "Get", "Remove", "Has"}
	for fallback := 0; fallback < 5; fallback++ {
		for factory := 0; factory < 5; factory++ {
			fallback, factory := fallback, factory
			if c.Tier != "thorough" && fallback == 4 && factory == 4 {
				continue
			}
			names := []string{"nothing", "a client", "an error", "no client", "a client for a only"}
			construct := fmt.Sprintf("NewRouter(fallback gives %s, factory gives %s)", names[fallback], names[factory])
			c.Explore("registry", construct, pos, c12Cfg(), func(s *Scn) {
				onChange := s.Bool("onChange")
				r := s.newReg(fallback, factory, onChange)
				sp := &regSpec{m: map[string]string{}}
				nf := s.Code(s.P.MkErr(absint.MkInt(5), absint.MkString("")))
				var hist []string
				for i := 0; i < n; i++ {
					o := &regOp{kind: kinds[s.Pick(fmt.Sprint("op", i), 4)], name: []string{"a", nameB}[s.Pick(fmt.Sprint("name", i), 2)]}
					if i == 0 && o.name == nameB {
						s.P.Cut("symmetric")
					}
					if o.kind == "Add" {
						o.client = s.anyClient(fmt.Sprint("added", i))
					}
					asked := r.asked
					r.do(o)
					if o.kind != "Get" && r.asked > asked {
						s.Fail("%s asks for a new client", o.kind)
					}
					if sp.m[o.name] != "" && r.asked > asked {
						s.Fail("Get asks for a new client when there's one already")
					}
					hist = append(hist, o.String())
					if why := sp.apply(r, o, fallback, factory, nf); why != "" {
						s.Fail("after %v: %s", hist, why)
						return
					}
				}
				want := sp.log
				if !onChange {
					want = nil
				}
				if got := fmt.Sprint(r.log); got != fmt.Sprint(want) {
					s.Fail("%v reports the changes %v, want %v", hist, r.log, want)
				}
				for _, name := range []string{"a", nameB} {
					o := &regOp{kind: "Has", name: name}
					r.do(o)
					if o.res != fmt.Sprint(sp.m[name] != "") {
						s.Fail("%v then %s", hist, o)
					}
				}
			})
		}
	}
}

func c12RegistryRace(c *Ctx) {
	pos := c.methodOf(types.NewPointer(c.Type(routerPkg, "router")), "Get").Pos()
	kinds := []string{"Add", "Get", "Remove", "Has"}
	type cse struct{ ops []int }
	var cases []cse
	for i := range kinds {
		for j := i; j < len(kinds); j++ {
			cases = append(cases, cse{[]int{i, j}})
		}
	}
	cases = append(cases, cse{[]int{1, 1, 1}}, cse{[]int{1, 1, 2}}, cse{[]int{0, 1, 1}})
	for _, cs := range cases {
		cs := cs
		var ns []string
		for _, k := range cs.ops {
			ns = append(ns, kinds[k])
		}
		cfg := c12Cfg()
		cfg.Preempt = 2
		if c.Tier == "thorough" {
			cfg.Preempt = 3
		}
		cfg.SchedChoice = true
		cfg.YieldAccess = true
		c.Explore("registry-race", strings.Join(ns, " ‖ "), pos, cfg, func(s *Scn) {
			factory := s.Pick("factory", 2)
			r := s.newReg(0, factory, true)
			start := &regSpec{m: map[string]string{}}
			nf := s.Code(s.P.MkErr(absint.MkInt(5), absint.MkString("")))
			if s.Bool("registered") {
				o := &regOp{kind: "Add", name: "a", client: s.anyClient("first")}
				r.do(o)
				start.apply(r, o, 0, factory, nf)
			}
			var ops []*regOp
			for i, k := range cs.ops {
				o := &regOp{kind: kinds[k], name: "a"}
				if o.kind == "Add" {
					o.client = s.anyClient(fmt.Sprint("added", i))
				}
				ops = append(ops, o)
				s.Go(fmt.Sprint("op", i), func() { r.do(o) })
			}
			s.P.Settle()
			for _, o := range ops {
				if !o.done {
					s.Stop("%s doesn't return", o.kind)
				}
			}
			has, get := &regOp{kind: "Has", name: "a"}, &regOp{kind: "Get", name: "a"}
			r.do(has)
			r.do(get)
			var why []string
			if !c12Orders(ops, start, func(o *regOp, sp *regSpec) string { return sp.apply(r, o, 0, factory, nf) }, func(sp *regSpec) bool {
				sp = sp.clone()
				for _, o := range []*regOp{has, get} {
					if w := sp.apply(r, o, 0, factory, nf); w != "" {
						why = append(why, w)
						return false
					}
				}
				if sortedChanges(sp.log) != sortedChanges(r.log) {
					why = append(why, fmt.Sprintf("changes %v, want %v", r.log, sp.log))
					return false
				}
				return true
			}) {
				s.Fail("registered first: %v, %v then %v isn't what any order of them does: %v, %s", start.m, ops, get, dedupe(why, 2), sortedChanges(r.log))
			}
		})
	}
}

// c12Orders says whether the operations could have taken effect one at a time.
func c12Orders(ops []*regOp, sp *regSpec, apply func(o *regOp, sp *regSpec) string, end func(sp *regSpec) bool) bool {
	if len(ops) == 0 {
		return end(sp)
	}
	for i, o := range ops {
		n := sp.clone()
		if apply(o, n) != "" {
			continue
		}
		rest := append(append([]*regOp{}, ops[:i]...), ops[i+1:]...)
		if c12Orders(rest, n, apply, end) {
			return true
		}
	}
	return false
}
