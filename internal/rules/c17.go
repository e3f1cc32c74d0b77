package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"scverify/internal/absint"
)

const groupPkg = "pkg/group"

func init() {
	register("C17", "strategies", "Execute follows the contract of each strategy for every outcome of the members in every order", c17Strategies)
	register("C17", "simultaneous", "Members that complete at the same time are handled as if they completed in some order", c17Simultaneous)
	register("C17", "single-result", "ExecuteOne, ExecuteFast and ExecuteRace return the response and index of the deciding member", c17Single)
	register("C17", "caller-gone", "Cancelling the caller reaches the members and leaves nothing behind", c17CallerGone)
	register("C17", "device-groups", "Groups of devices ask each member under its own name and combine the outcomes by their strategy", c17Devices)
}

// gmember is a member of a group.
type gmember struct {
	i              int
	started        int
	released, done bool
	aware          bool // returns when its context is cancelled
	ok             bool
	ctx            Val
	msg, err       Val
}

func (m *gmember) cancelled(s *Scn) bool { return m.ctx != nil && s.P.CtxErr(m.ctx) != "" }

// act is what the member does when it's called.
func (m *gmember) act(s *Scn, ctx Val) (Val, Val) {
	m.started++
	m.ctx = ctx
	s.P.WaitFor(fmt.Sprint("member ", m.i), func() bool { return m.released || m.aware && m.cancelled(s) })
	m.done = true
	if !m.released {
		return absint.MkNil(s.C.protoMessage()), m.err
	}
	if m.ok {
		return m.msg, absint.MkNil(errType)
	}
	return absint.MkNil(s.C.protoMessage()), m.err
}

func (s *Scn) gmembers(n int, msg func(i int) Val) []*gmember {
	var ms []*gmember
	for i := 0; i < n; i++ {
		m := &gmember{i: i, err: s.P.MkErr(absint.MkInt(14), absint.MkString(fmt.Sprint("error of ", i)))}
		if msg == nil {
			m.msg = s.Msg(fmt.Sprint("msg", i))
		} else {
			m.msg = msg(i)
		}
		ms = append(ms, m)
	}
	return ms
}

func (s *Scn) gslice(ms []*gmember) Val {
	t := s.C.Type(groupPkg, "Member")
	var fs []Val
	for _, m := range ms {
		m := m
		fs = append(fs, s.Native(fmt.Sprint("member", m.i), func(args []Val) Val {
			if m.started > 0 {
				s.Fail("a member is run more than once")
			}
			msg, err := m.act(s, args[0])
			return absint.TupleV{msg, err}
		}))
	}
	return s.P.MkSlice(types.NewSlice(t), "members", fs...)
}

// gstate is what a strategy's contract says about a group after some members have completed.
type gstate struct {
	returned  bool
	cancelled bool // the members that have not completed
	anyCancel bool // it's up to the implementation
	err       int  // the member whose error is returned, -1 for success
	winner    int  // the only member with a result, -1 for all that have succeeded
}

var gStrategies = []string{"All", "Most", "Any", "One", "Fast", "Race"}

// gcontract is what should be the case once the members have completed in the given order.
func gcontract(strategy string, n int, order []int, ok func(i int) bool) gstate {
	st := gstate{err: -1, winner: -1}
	errs, firstErr, firstOK := 0, -1, -1
	for _, i := range order {
		if ok(i) {
			if firstOK < 0 {
				firstOK = i
			}
			continue
		}
		errs++
		if firstErr < 0 {
			firstErr = i
		}
	}
	limit := 0
	switch strategy {
	case "Most":
		limit = n / 2
	case "Any":
		limit = n - 1
	}
	switch strategy {
	case "One", "Fast":
		st.returned = firstOK >= 0 || len(order) == n
		if firstOK >= 0 {
			st.winner = firstOK
		} else {
			st.err = firstErr
		}
		st.cancelled = st.returned
	case "Race":
		st.returned = len(order) > 0
		if st.returned {
			if ok(order[0]) {
				st.winner = order[0]
			} else {
				st.err = order[0]
			}
		}
		st.cancelled = st.returned
	default:
		st.returned = len(order) == n
		if errs > limit {
			st.cancelled = true
			st.err = firstErr
		}
		if !st.cancelled && (errs+n-len(order) <= limit) {
			st.anyCancel = false // the rest can't make it fail, but everybody gets to respond
		}
	}
	return st
}

// gcall is a call of Execute.
type gcall struct {
	s        *Scn
	strategy string
	ms       []*gmember
	ctx      Val
	returned bool
	results  Val
	err      Val
}

func (s *Scn) strategy(name string) Val {
	pkg := s.C.Pkg(groupPkg)
	k, ok := pkg.Members["ExecutionStrategy"+name].(*ssa.NamedConst)
	if !ok {
		panic(missing{"group.ExecutionStrategy" + name})
	}
	return absint.Const{T: k.Type(), V: k.Value.Value}
}

func (s *Scn) execute(strategy string, ms []*gmember) *gcall {
	g := &gcall{s: s, strategy: strategy, ms: ms, ctx: s.Ctx("ctx")}
	fn := s.C.Fn(groupPkg, "Execute")
	s.P.Spawn("caller", func() {
		r := s.Call(fn, g.ctx, s.strategy(strategy), s.gslice(ms))
		g.results, g.err = r[0], r[1]
		g.returned = true
	})
	return g
}

func (g *gcall) what() string {
	var r []string
	for _, m := range g.ms {
		switch {
		case !m.done:
			r = append(r, "running")
		case m.released && m.ok:
			r = append(r, "ok")
		default:
			r = append(r, "failed")
		}
	}
	return g.strategy + " of [" + strings.Join(r, ", ") + "]"
}

// check compares the state of a call with the contract.
func (g *gcall) check(st gstate) {
	s := g.s
	if g.returned != st.returned {
		s.Fail("%s: returned is %v", g.what(), g.returned)
		return
	}
	if !st.anyCancel {
		for _, m := range g.ms {
			if m.started > 0 && !m.done && m.cancelled(s) != st.cancelled {
				s.Fail("%s: the context of a running member is cancelled: %v", g.what(), !st.cancelled)
				return
			}
		}
	}
	if g.returned {
		g.result(st, func(f string, a ...any) { s.Fail(f, a...) })
	}
}

// result compares what was returned.
func (g *gcall) result(st gstate, fail func(f string, a ...any)) {
	s := g.s
	if isErr := !s.P.IsNil(g.err); isErr != (st.err >= 0) {
		fail("%s: returns an error: %v", g.what(), isErr)
		return
	}
	if st.err >= 0 && !s.P.Equal(g.err, g.ms[st.err].err) {
		fail("%s: doesn't return the first error, the one of member %d", g.what(), st.err)
		return
	}
	if st.err >= 0 && s.P.IsNil(g.results) {
		return
	}
	sl, ok := s.P.SliceOf(g.results)
	if !ok || sl.Hi-sl.Lo != len(g.ms) {
		fail("%s: the number of results isn't the number of members", g.what())
		return
	}
	for i, m := range g.ms {
		r := s.P.Resolve(sl.Arr.Cells[sl.Lo+i].Load())
		has := !s.P.IsNil(r)
		due := m.released && m.done && m.ok && (st.winner < 0 || st.winner == i)
		if st.err >= 0 {
			due = due && has // results of a group that failed are optional
		}
		if has != due {
			fail("%s: has a result of member %d: %v", g.what(), i, has)
			return
		}
		if has && s.Content(r) != s.Content(m.msg) {
			fail("%s: the result at %d isn't the response of that member", g.what(), i)
			return
		}
	}
}

func gsize(c *Ctx) int {
	if c.Tier == "thorough" {
		return 4
	}
	return 3
}

func c17Cfg(c *Ctx) *absint.Config {
	cfg := resCfg(c)
	cfg.MaxLoop = 12
	return cfg
}

func c17Strategies(c *Ctx) {
	fn := c.Fn(groupPkg, "Execute")
	for _, st := range gStrategies {
		for n := 0; n <= gsize(c); n++ {
			c.Explore("strategies", fmt.Sprintf("%s of %d", st, n), fn.Pos(), c17Cfg(c), func(s *Scn) {
				ms := s.gmembers(n, nil)
				for _, m := range ms {
					m.aware = s.Bool(fmt.Sprint("stops when cancelled ", m.i))
				}
				g := s.execute(st, ms)
				s.P.Settle()
				if n == 0 {
					if !g.returned {
						s.Stop("%s of no members doesn't return", st)
					}
					if (st == "All" || st == "Most") && !s.P.IsNil(g.err) {
						s.Fail("%s of no members fails", st)
					}
					if sl, ok := s.P.SliceOf(g.results); !s.P.IsNil(g.results) && (!ok || sl.Hi != sl.Lo) {
						s.Fail("%s of no members has results", st)
					}
					return
				}
				g.run(func() *gmember {
					var running []*gmember
					for _, m := range ms {
						if m.started > 0 && !m.done {
							running = append(running, m)
						}
					}
					if len(running) == 0 {
						return nil
					}
					return running[s.Pick(fmt.Sprintf("next of %v", ids(running)), len(running))]
				})
			})
		}
	}
}

// run completes members one after another, and checks the state after each.
func (g *gcall) run(next func() *gmember) {
	s := g.s
	var order []int
	state := func() gstate {
		return gcontract(g.strategy, len(g.ms), order, func(i int) bool { return g.ms[i].ok && g.ms[i].released })
	}
	startedAll := func() {
		st := state()
		for i, m := range g.ms {
			want := true
			if g.strategy == "One" {
				want = i < len(order) || i == len(order) && !st.returned
			}
			if (m.started > 0) != want {
				s.Fail("%s: member %d is run: %v", g.what(), i, m.started > 0)
			}
		}
	}
	startedAll()
	g.check(state())
	for {
		m := next()
		if m == nil {
			break
		}
		m.ok = s.Bool(fmt.Sprint("succeeds ", m.i))
		m.released = true
		s.P.Settle()
		if !m.done {
			s.Stop("%s: a member that is ready doesn't get to run", g.what())
		}
		order = append(order, m.i)
		st := state()
		if st.returned || st.cancelled {
			// those that stop when they are cancelled have done so
			for _, x := range g.ms {
				if x.done && !x.released && !contains(order, x.i) {
					order = append(order, x.i)
				}
			}
		}
		if !g.returned || g.strategy == "One" {
			startedAll()
		}
		g.check(state())
	}
	if !g.returned {
		s.Stop("%s: doesn't return although every member has", g.what())
	}
}

func ids(ms []*gmember) []int {
	var r []int
	for _, m := range ms {
		r = append(r, m.i)
	}
	return r
}

func contains(xs []int, x int) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func permutations(xs []int) [][]int {
	if len(xs) == 0 {
		return [][]int{nil}
	}
	var r [][]int
	for i := range xs {
		rest := append(append([]int(nil), xs[:i]...), xs[i+1:]...)
		for _, p := range permutations(rest) {
			r = append(r, append([]int{xs[i]}, p...))
		}
	}
	return r
}

func c17Simultaneous(c *Ctx) {
	fn := c.Fn(groupPkg, "Execute")
	for _, st := range gStrategies {
		if st == "One" {
			continue // never runs two at the same time
		}
		for n := 2; n <= 3; n++ {
			cfg := cancelPoints(c17Cfg(c), 4-n)
			c.Explore("simultaneous", fmt.Sprintf("%s of %d", st, n), fn.Pos(), cfg, func(s *Scn) {
				ms := s.gmembers(n, nil)
				var all []int
				for i, m := range ms {
					m.ok = s.Bool(fmt.Sprint("succeeds ", i))
					m.released = true
					all = append(all, i)
				}
				g := s.execute(st, ms)
				s.P.Settle()
				if !g.returned {
					s.Stop("%s: doesn't return although every member has", g.what())
				}
				var first string
				for _, order := range permutations(all) {
					k := len(order)
					if st == "Race" {
						k = 1
					}
					bad := ""
					g.result(gcontract(st, n, order[:k], func(i int) bool { return ms[i].ok }), func(f string, a ...any) { bad = fmt.Sprintf(f, a...) })
					if bad == "" {
						return
					}
					if first == "" {
						first = bad
					}
				}
				s.Fail("%s", first)
			})
		}
	}
}

func c17Single(c *Ctx) {
	for _, st := range []string{"One", "Fast", "Race"} {
		fn := c.Fn(groupPkg, "Execute"+st)
		for n := 0; n <= gsize(c); n++ {
			c.Explore("single-result", fmt.Sprintf("%s of %d", st, n), fn.Pos(), c17Cfg(c), func(s *Scn) {
				ms := s.gmembers(n, nil)
				ctx := s.Ctx("ctx")
				var ret []Val
				s.P.Spawn("caller", func() { ret = s.Call(fn, ctx, s.gslice(ms)) })
				s.P.Settle()
				var order []int
				for {
					var running []*gmember
					for _, m := range ms {
						if m.started > 0 && !m.done {
							running = append(running, m)
						}
					}
					if len(running) == 0 {
						break
					}
					m := running[s.Pick(fmt.Sprintf("next of %v", ids(running)), len(running))]
					m.ok = s.Bool(fmt.Sprint("succeeds ", m.i))
					m.released = true
					order = append(order, m.i)
					s.P.Settle()
					if ret != nil {
						break
					}
				}
				for _, m := range ms {
					if !m.done && m.started > 0 && !m.cancelled(s) {
						s.Fail("%s leaves a member running", st)
					}
					m.released = true
				}
				s.P.Settle()
				if ret == nil {
					s.Stop("%s doesn't return although every member has", st)
				}
				if n == 0 {
					return
				}
				want := gcontract(st, n, order, func(i int) bool { return ms[i].ok })
				if isErr := !s.P.IsNil(ret[2]); isErr != (want.err >= 0) {
					s.Fail("%s returns an error: %v", st, isErr)
				} else if isErr {
					if !s.P.Equal(ret[2], ms[want.err].err) {
						s.Fail("%s doesn't return the first error", st)
					}
				} else {
					i, _ := absint.IntConst(s.P.Resolve(ret[1]))
					if int(i) != want.winner || s.Content(ret[0]) != s.Content(ms[want.winner].msg) {
						s.Fail("%s returns %s and index %d, which is not the response of member %d", st, s.Content(ret[0]), i, want.winner)
					}
				}
			})
		}
	}
}

func c17CallerGone(c *Ctx) {
	fn := c.Fn(groupPkg, "Execute")
	for _, st := range gStrategies {
		for n := 1; n <= gsize(c); n++ {
			c.Explore("caller-gone", fmt.Sprintf("%s of %d", st, n), fn.Pos(), c17Cfg(c), func(s *Scn) {
				ms := s.gmembers(n, nil)
				for _, m := range ms {
					m.aware = s.Bool(fmt.Sprint("stops when cancelled ", m.i))
					m.ok = s.Bool(fmt.Sprint("succeeds ", m.i))
				}
				g := s.execute(st, ms)
				s.P.Settle()
				if k := s.Pick("done before", n+1); k < n && ms[k].started > 0 {
					ms[k].released = true
					s.P.Settle()
				}
				s.P.CancelCtx(g.ctx)
				s.P.Settle()
				for _, m := range ms {
					if m.started > 0 && !m.done && !m.cancelled(s) {
						s.Fail("%s: the context of a running member isn't cancelled although the caller's is", g.what())
					}
				}
				for _, m := range ms {
					m.released = true
				}
				s.P.Settle()
				if !g.returned {
					s.Stop("%s: doesn't return although every member has", g.what())
				}
			})
		}
	}
}

// deviceGroup is a type that combines devices.
type deviceGroup struct {
	t   *types.Named
	new *ssa.Function
}

// deviceGroups finds the types with execution strategies.
func (c *Ctx) deviceGroups() []deviceGroup {
	var r []deviceGroup
	for path, pkg := range c.P.SSA {
		if !strings.HasPrefix(path, modPath+"/pkg/trait/") {
			continue
		}
		tn, ok := pkg.Members["Group"].(*ssa.Type)
		if !ok {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		fn := pkg.Func("NewGroup")
		if fn == nil {
			panic(missing{pkg.Pkg.Path() + ".NewGroup"})
		}
		r = append(r, deviceGroup{named, fn})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].t.String() < r[j].t.String() })
	return r
}

func c17Devices(c *Ctx) {
	groups := c.deviceGroups()
	rpcs := 0
	defer func() {
		c.Count("methods of groups of devices", rpcs)
		if rpcs < 6 {
			c.Undecided("device-groups", "enumeration", 0, "only %d methods of groups of devices found", rpcs)
		}
	}()
	c.Count("groups of devices", len(groups))
	if len(groups) < 2 {
		c.Undecided("device-groups", "enumeration", 0, "only %d groups of devices found", len(groups))
	}
	for _, g := range groups {
		for _, fn := range c.methods(g.t) {
			sig := fn.Signature
			if fn.Synthetic != "" || fn.Object() == nil || !fn.Object().Exported() {
				continue
			}
			switch {
			case sig.Params().Len() == 2 && sig.Results().Len() == 2 && isMsgPtr(sig.Results().At(0).Type()):
				rpcs++
				c17Unary(c, g, fn)
			case sig.Params().Len() == 2 && sig.Results().Len() == 1:
				rpcs++
				c17Pull(c, g, fn)
			}
		}
	}
}

// newDeviceGroup creates a group of devices "a", "b", ... with one strategy for reads and one for writes.
func (s *Scn) newDeviceGroup(g deviceGroup, names []string, read, write string) Val {
	impl := s.P.NonNilSym("impl", g.new.Signature.Params().At(0).Type())
	args := []Val{impl}
	for _, n := range names {
		args = append(args, strID(n))
	}
	v := s.Call(g.new, s.variadic(g.new, args)...)[0]
	s.SetField(v, "ReadExecution", s.strategy(read))
	s.SetField(v, "WriteExecution", s.strategy(write))
	return v
}

// implHook answers calls of the members of a group.
func implHook(cfg *absint.Config, f func(c *absint.Call, method string, args []Val) (Val, bool)) *absint.Config {
	old := cfg.Hook
	cfg.Hook = func(c *absint.Call) (Val, bool) {
		if sym, ok := c.Recv.(*absint.Sym); ok && (sym.Key == "impl" || strings.HasPrefix(sym.Key, "clientstream#")) {
			if v, ok := f(c, c.Name[strings.LastIndex(c.Name, ".")+1:], c.Args); ok {
				return v, true
			}
		}
		if old != nil {
			return old(c)
		}
		return nil, false
	}
	return cfg
}

// fieldTerms are the fields of a message but the name.
func (s *Scn) fieldTerms(m Val) map[string]string {
	r := map[string]string{}
	st, ok := s.P.Deref(absint.Unwrap(s.P.Resolve(m))).Load0().(*absint.StructV)
	if !ok {
		return r
	}
	t := st.T.Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		if !f.Exported() || f.Name() == "Name" {
			continue
		}
		v := s.P.Resolve(st.Field(i).Load())
		if isMsgPtr(f.Type()) {
			r[f.Name()] = s.Content(v)
		} else {
			r[f.Name()] = absint.DeepKey(v)
		}
	}
	return r
}

// newRequest makes a request with messages in all its fields.
func (s *Scn) newRequest(t types.Type, label string, name string) absint.Ptr {
	fields := map[string]Val{"Name": strID(name)}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch {
		case !f.Exported() || f.Name() == "Name":
		case isMsgPtr(f.Type()):
			fields[f.Name()] = s.P.NonNilSym(label+"."+f.Name(), f.Type())
		default:
			if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				fields[f.Name()] = absint.MkBool(s.Bool(label + "." + f.Name()))
			}
		}
	}
	return s.NewMsg(t, label, fields)
}

func c17Unary(c *Ctx, g deviceGroup, fn *ssa.Function) {
	name := g.t.Obj().Pkg().Name() + "." + fn.Name()
	names := []string{"a", "b"}
	read := strings.HasPrefix(fn.Name(), "Get")
	reqT := fn.Signature.Params().At(1).Type().(*types.Pointer).Elem()
	resT := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
	cfg := c17Cfg(c)
	cfg.MaxLoop = 40
	implHook(cfg, func(call *absint.Call, method string, args []Val) (Val, bool) {
		s := call.P.Data["scn"].(*Scn)
		ms, _ := call.P.Data["members"].([]*gmember)
		if method != fn.Name() {
			s.Stop("%s calls %s of a member", name, method)
		}
		who, ok := absint.StringConst(s.P.Resolve(s.Field(args[1], "Name")))
		if !ok {
			s.Stop("%s calls a member without a name", name)
		}
		for i, n := range names {
			if n != who {
				continue
			}
			if ms[i].started > 0 {
				s.Stop("%s calls a member twice", name)
			}
			want := call.P.Data["want"].(map[string]string)
			got := s.fieldTerms(args[1])
			for _, k := range sortedKeys(want) {
				if got[k] != want[k] {
					s.Fail("%s: the %s of the request of a member isn't the one of the group's request", name, k)
				}
			}
			msg, err := ms[i].act(s, args[0])
			return absint.TupleV{absint.Unwrap(s.P.Resolve(msg)), err}, true
		}
		s.Stop("%s calls %q which isn't a member", name, who)
		return nil, false
	})
	for _, st := range gStrategies {
		c.Explore("device-groups", name+" using "+st, fn.Pos(), cfg, func(s *Scn) {
			s.P.Data["scn"] = s
			ms := s.gmembers(len(names), func(i int) Val { return s.NewMsg(resT, fmt.Sprint("response", i), nil) })
			s.P.Data["members"] = ms
			other := "Race"
			if st == "Race" {
				other = "Any"
			}
			var grp Val
			if read {
				grp = s.newDeviceGroup(g, names, st, other)
			} else {
				grp = s.newDeviceGroup(g, names, other, st)
			}
			req := s.newRequest(reqT, "req", "group")
			want := s.fieldTerms(req)
			s.P.Data["want"] = want
			call := &gcall{s: s, strategy: st, ms: ms, ctx: s.Ctx("ctx")}
			var ret []Val
			s.P.Spawn("caller", func() { ret = s.Call(fn, grp, call.ctx, req) })
			s.P.Settle()
			var order []int
			for {
				var running []*gmember
				for _, m := range ms {
					if m.started > 0 && !m.done {
						running = append(running, m)
					}
				}
				w := gcontract(st, len(ms), order, func(i int) bool { return ms[i].ok })
				if w.returned != (ret != nil) {
					s.Fail("%s: returned is %v", call.what(), ret != nil)
					return
				}
				if !w.returned {
					for _, m := range running {
						if m.cancelled(s) != w.cancelled {
							s.Fail("%s: the context of a running member is cancelled: %v", call.what(), !w.cancelled)
						}
					}
				}
				if ret != nil {
					switch isErr := !s.P.IsNil(ret[1]); {
					case isErr != (w.err >= 0):
						s.Fail("%s: returns an error: %v", call.what(), isErr)
					case isErr && !s.P.Equal(ret[1], ms[w.err].err):
						s.Fail("%s: doesn't return the first error", call.what())
					case !isErr && s.P.IsNil(ret[0]):
						s.Fail("%s: returns nothing", call.what())
					}
					break
				}
				m := running[s.Pick(fmt.Sprintf("next of %v", ids(running)), len(running))]
				m.ok = s.Bool(fmt.Sprint("succeeds ", m.i))
				m.released = true
				order = append(order, m.i)
				s.P.Settle()
			}
			for _, m := range ms {
				m.released = true
			}
			s.P.Settle()
			if n, _ := absint.StringConst(s.P.Resolve(s.Field(req, "Name"))); n != "group" {
				s.Fail("%s changes the request", name)
			}
			for k, v := range s.fieldTerms(req) {
				if want[k] != v {
					s.Fail("%s changes the request", name)
				}
			}
		})
	}
}

// gstream is a member's stream.
type gstream struct {
	ctx    Val
	queue  []Val // messages to be received
	end    Val   // the error that ends it
	closed bool
}

func c17Pull(c *Ctx, g deviceGroup, fn *ssa.Function) {
	name := g.t.Obj().Pkg().Name() + "." + fn.Name()
	names := []string{"a", "b"}
	reqT := fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()
	cfg := streamCfg(c17Cfg(c))
	cfg.MaxLoop = 40
	cfg.SelectFirst = true
	implHook(cfg, func(call *absint.Call, method string, args []Val) (Val, bool) {
		s := call.P.Data["scn"].(*Scn)
		streams := call.P.Data["streams"].(map[string]*gstream)
		if st, ok := streams[absint.Key(call.Recv)]; ok {
			switch method {
			case "Context":
				return st.ctx, true
			case "Recv":
				s.P.WaitFor("a message of a member", func() bool {
					return len(st.queue) > 0 || st.end != nil || s.P.CtxErr(st.ctx) != ""
				})
				nilMsg := absint.MkNil(call.Sig.Results().At(0).Type())
				if len(st.queue) > 0 {
					m := st.queue[0]
					st.queue = st.queue[1:]
					return absint.TupleV{m, absint.MkNil(errType)}, true
				}
				st.closed = true
				if st.end != nil {
					return absint.TupleV{nilMsg, st.end}, true
				}
				return absint.TupleV{nilMsg, s.P.MkErr(absint.MkInt(1), absint.MkString("canceled"))}, true
			}
			return nil, false
		}
		if method != fn.Name() {
			s.Stop("%s calls %s of a member", name, method)
		}
		who, _ := absint.StringConst(s.P.Resolve(s.Field(args[1], "Name")))
		want := call.P.Data["want"].(map[string]string)
		got := s.fieldTerms(args[1])
		for _, k := range sortedKeys(want) {
			if got[k] != want[k] {
				s.Fail("%s: the %s of the request of a member isn't the one of the group's request", name, k)
			}
		}
		st := call.P.Data["member:"+who]
		if st == nil {
			s.Stop("%s calls %q which isn't a member or was called before", name, who)
		}
		call.P.Data["member:"+who] = nil
		call.P.Data["called:"+who] = true
		if s.Bool("refuses " + who) {
			st.(*gstream).closed = true
			return absint.TupleV{absint.MkNil(call.Sig.Results().At(0).Type()), s.P.MkErr(absint.MkInt(14), absint.MkString("refused"))}, true
		}
		st.(*gstream).ctx = args[0]
		key := s.P.Fresh("clientstream")
		s.P.SetFact("nil:"+key, 1)
		streams[key] = st.(*gstream)
		return absint.TupleV{&absint.Sym{Key: key, T: call.Sig.Results().At(0).Type(), NonNil: true}, absint.MkNil(errType)}, true
	})
	for _, st := range []string{"All", "Any", "Fast", "Race"} {
		c.Explore("device-groups", name+" using "+st, fn.Pos(), cfg, func(s *Scn) {
			s.P.Data["scn"] = s
			s.P.Data["streams"] = map[string]*gstream{}
			var ms []*gstream
			for _, n := range names {
				m := &gstream{}
				ms = append(ms, m)
				s.P.Data["member:"+n] = m
			}
			other := "Race"
			if st == "Race" {
				other = "Any"
			}
			grp := s.newDeviceGroup(g, names, st, other)
			req := s.newRequest(reqT, "req", "group")
			s.P.Data["want"] = s.fieldTerms(req)
			ctx := s.Ctx("stream")
			server := s.serverStream(ctx)
			sendErr := s.P.MkErr(absint.MkInt(14), absint.MkString("send failed"))
			failSend := s.Bool("sending fails")
			server.onSend = func(m Val) Val {
				if failSend {
					return sendErr
				}
				return nil
			}
			var ret []Val
			s.P.Spawn("caller", func() { ret = s.Call(fn, grp, req, server.v) })
			s.P.Settle()
			for _, n := range names {
				if s.P.Data["called:"+n] == nil {
					s.Fail("%s doesn't call each of the members", name)
				}
			}
			resT := fn.Signature.Params().At(1).Type()
			msgT := sendParam(resT)
			together := s.Bool("sent together")
			for i, m := range ms {
				if ret == nil && s.Bool(fmt.Sprint("sends ", i)) {
					chT := elemOfField(msgT, "Changes")
					fields := map[string]Val{}
					ct := chT.Underlying().(*types.Struct)
					for j := 0; j < ct.NumFields(); j++ {
						if f := ct.Field(j); isMsgPtr(f.Type()) && f.Name() != "ChangeTime" {
							vt := f.Type().(*types.Pointer).Elem()
							vals := map[string]Val{}
							vs := vt.Underlying().(*types.Struct)
							for k := 0; k < vs.NumFields(); k++ {
								if b, ok := vs.Field(k).Type().Underlying().(*types.Basic); ok && vs.Field(k).Exported() {
									switch {
									case b.Info()&types.IsInteger != 0:
										vals[vs.Field(k).Name()] = absint.Const{T: vs.Field(k).Type(), V: constant.MakeInt64(int64(i + 1))}
									case b.Info()&types.IsFloat != 0:
										vals[vs.Field(k).Name()] = absint.MkFloat(vs.Field(k).Type(), float64(i+1))
									}
								}
							}
							fields[f.Name()] = s.NewMsg(vt, fmt.Sprint("value", i), vals)
						}
					}
					change := s.NewMsg(chT, fmt.Sprint("change", i), fields)
					slT := types.NewSlice(types.NewPointer(chT))
					m.queue = append(m.queue, s.NewMsg(msgT, fmt.Sprint("msg", i), map[string]Val{"Changes": s.P.MkSlice(slT, "changes", change)}))
					if together {
						m.queue = append(m.queue, m.queue[0])
					} else {
						s.P.Settle()
					}
				}
			}
			s.P.Settle()
			for _, m := range server.sent {
				ch, _ := s.P.SliceOf(s.Field(m, "Changes"))
				for _, cell := range ch.Arr.Cells[ch.Lo:ch.Hi] {
					if n, _ := absint.StringConst(s.P.Resolve(s.Field(cell.Load(), "Name"))); n != "group" {
						s.Fail("%s reports a change under the name %q", name, n)
					}
				}
			}
			switch s.Pick("ends by", 3) {
			case 0:
				s.P.CancelCtx(ctx)
			case 1:
				ms[0].end = s.P.MkErr(absint.MkInt(14), absint.MkString("ended"))
				s.P.Settle()
				ms[1].end = ms[0].end
			case 2:
				ms[1].end = s.extGlobal("io", "EOF")
				s.P.Settle()
				ms[0].end = s.P.MkErr(absint.MkInt(14), absint.MkString("ended"))
			}
			s.P.Settle()
			if ret == nil {
				s.Stop("%s doesn't return although the members have ended", name)
			}
			for _, m := range ms {
				if !m.closed && m.ctx != nil && s.P.CtxErr(m.ctx) == "" {
					s.Fail("%s leaves the stream of a member open", name)
				}
			}
		})
	}
}

// sendParam is what's sent on a stream.
func sendParam(stream types.Type) types.Type {
	ms := types.NewMethodSet(stream)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Send" {
			return ms.At(i).Type().(*types.Signature).Params().At(0).Type().(*types.Pointer).Elem()
		}
	}
	panic(missing{stream.String() + ".Send"})
}

// elemOfField is the type of message in a repeated field.
func elemOfField(t types.Type, name string) types.Type {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type().Underlying().(*types.Slice).Elem().(*types.Pointer).Elem()
		}
	}
	panic(missing{t.String() + "." + name})
}

// extGlobal is the value of a variable of another module.
func (s *Scn) extGlobal(pkg, name string) Val {
	for _, sp := range s.C.P.Prog.AllPackages() {
		if sp.Pkg.Path() == pkg {
			if g := sp.Var(name); g != nil {
				return s.P.Global(g).Load()
			}
		}
	}
	panic(missing{pkg + "." + name})
}
