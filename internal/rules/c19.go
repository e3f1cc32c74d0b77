package rules

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"scverify/internal/absint"
)

const electricPkg = "pkg/trait/electricpb"

func init() {
	register("C19", "modes-sequential", "Sequences of mode operations keep the documented invariants and answer like the reference model", c19Sequential)
	register("C19", "modes-concurrent", "Mode operations that race keep the documented invariants and answer as if they happened one after the other", c19Concurrent)
}

// elState is the reference: modes by id, the active mode.
type elState struct {
	modes  map[string]elMode
	active string
	start  int64 // seconds, -1 is absent
	ever   bool  // the active mode has been changed
}

type elMode struct {
	title  string
	normal bool
	start  int64
}

func (m elMode) String() string { return fmt.Sprintf("%s/%v", m.title, m.normal) }

func (st *elState) clone() *elState {
	n := *st
	n.modes = map[string]elMode{}
	for k, v := range st.modes {
		n.modes[k] = v
	}
	return &n
}

func (st *elState) String() string {
	var r []string
	for k, v := range st.modes {
		r = append(r, k+"="+v.String())
	}
	sort.Strings(r)
	return "{" + strings.Join(r, ", ") + "} active " + st.active
}

func (st *elState) normal() string {
	for _, id := range sortedKeys(st.modes) {
		if st.modes[id].normal {
			return id
		}
	}
	return ""
}

// elOp is an operation, code lists the acceptable outcomes.
type elOp struct {
	kind         string
	id, title    string
	normal       bool
	mask         []string // nil is no mask
	paths        bool     // the mask is given as paths
	allowMissing bool
	create       bool // create if absent
	start        int64
	server       bool

	// what happened
	code   string
	result string
	gen    string
	lo, hi int64
	ended  bool
}

func (o *elOp) String() string {
	r := o.kind
	if o.server {
		r = "server." + r
	}
	a := []string{}
	if o.id != "" {
		a = append(a, o.id)
	}
	if o.title != "" {
		a = append(a, "title "+o.title)
	}
	if o.normal {
		a = append(a, "normal")
	}
	if o.mask != nil {
		a = append(a, fmt.Sprintf("mask %v", o.mask))
	}
	if o.allowMissing {
		a = append(a, "allow missing")
	}
	if o.create {
		a = append(a, "create if absent")
	}
	if o.start > 0 {
		a = append(a, "with start time")
	}
	return r + "(" + strings.Join(a, ", ") + ")"
}

type elWorld struct {
	s          *Scn
	model, srv Val
}

func (s *Scn) elMode(id, title string, normal bool, start int64) Val {
	f := map[string]any{"id": id, "title": title, "normal": normal}
	if start > 0 {
		f["start_time"] = map[string]any{"seconds": int(start)}
	}
	return s.build(s.C.ExtType(traitsPkg, "ElectricMode"), f)
}

func (s *Scn) newElectric(opts ...Val) *elWorld {
	w := &elWorld{s: s}
	opts = append(opts, s.F(electricPkg, "WithClock", s.clock()))
	w.model = s.F(electricPkg, "NewModel", opts...)
	w.srv = s.F(electricPkg, "NewModelServer", w.model)
	return w
}

func (w *elWorld) m(method string, args ...Val) []Val {
	return w.s.M(w.model, electricPkg, "Model", method, args...)
}

// rpc calls a unary method of the server, the request is made from proto field names.
func (w *elWorld) rpc(method string, req map[string]any) []Val {
	s := w.s
	fn := s.C.Method(electricPkg, "ModelServer", method)
	rt := pointee(fn.Signature.Params().At(1).Type())
	return s.Call(fn, w.srv, s.Background(), s.build(rt, req))
}

// run performs the operation.
func (o *elOp) run(w *elWorld) {
	s := w.s
	o.lo = s.clockReadings()
	var msg, err Val
	both := func(r []Val) { msg, err = r[0], r[1] }
	var opts []Val
	if o.mask != nil {
		if o.paths {
			var ps []Val
			for _, p := range o.mask {
				ps = append(ps, absint.MkString(p))
			}
			opts = append(opts, s.F(resPkg, "WithUpdatePaths", ps...))
		} else {
			opts = append(opts, s.F(resPkg, "WithUpdateMask", s.pm().mask(o.mask...)))
		}
	}
	if o.create {
		opts = append(opts, s.F(resPkg, "WithCreateIfAbsent"))
	}
	if o.allowMissing {
		opts = append(opts, s.F(resPkg, "WithAllowMissing", absint.MkBool(true)))
	}
	mode := func() Val { return s.elMode(o.id, o.title, o.normal, o.start) }
	before := ""
	var given Val
	switch {
	case o.kind == "create" && o.server:
		both(w.rpc("CreateMode", map[string]any{"mode": mode()}))
	case o.kind == "create":
		given = mode()
		before = s.render(given)
		both(w.m("CreateMode", given))
	case o.kind == "add":
		given = mode()
		before = s.render(given)
		err = w.m("AddMode", given)[0]
	case o.kind == "update" && o.server:
		req := map[string]any{"mode": mode()}
		if o.mask != nil {
			req["update_mask"] = s.pm().mask(o.mask...)
		}
		both(w.rpc("UpdateMode", req))
	case o.kind == "update":
		given = mode()
		before = s.render(given)
		both(w.m("UpdateMode", append([]Val{given}, opts...)...))
	case o.kind == "delete" && o.server:
		r := w.rpc("DeleteMode", map[string]any{"id": o.id, "allow_missing": o.allowMissing})
		err = r[1]
	case o.kind == "delete":
		err = w.m("DeleteMode", append([]Val{absint.MkString(o.id)}, opts...)...)[0]
	case o.kind == "setActive":
		given = mode()
		before = s.render(given)
		err = w.m("SetActiveMode", given)[0]
	case o.kind == "changeActive" && o.server:
		both(w.rpc("UpdateActiveMode", map[string]any{"active_mode": mode()}))
	case o.kind == "changeActive":
		both(w.m("ChangeActiveMode", absint.MkString(o.id)))
	case o.kind == "clear" && o.server:
		both(w.rpc("ClearActiveMode", map[string]any{}))
	case o.kind == "clear":
		both(w.m("ChangeToNormalMode"))
	default:
		panic(o.kind)
	}
	o.hi = s.clockReadings()
	o.code = s.Code(err)
	if given != nil && s.render(given) != before {
		s.Fail("%s changes the message it's given", o)
	}
	if msg != nil && o.code == "OK" {
		if s.P.IsNil(msg) {
			s.Stop("%s returns nothing", o)
		}
		o.gen = s.str(s.Field(msg, "Id"))
		o.result = fmt.Sprintf("%s=%s", o.gen, w.mode(msg))
	}
	o.ended = true
}

func (w *elWorld) mode(msg Val) elMode {
	s := w.s
	return elMode{s.str(s.Field(msg, "Title")), s.P.Truth(s.Field(msg, "Normal")), s.seconds(s.Field(msg, "StartTime"))}
}

// ref says what the operation has to do: the codes it may return and the state afterwards.
func (o *elOp) ref(st *elState) (codes []string, result string) {
	_, exists := st.modes[o.id]
	normal := st.normal()
	put := func(id string, m elMode) {
		st.modes[id] = m
		result = fmt.Sprintf("%s=%s", id, m)
	}
	activate := func(id string) {
		if st.active != id {
			st.start = -2 // now
		}
		st.active, st.ever = id, true
		result = fmt.Sprintf("%s=%s", id, st.modes[id])
	}
	switch o.kind {
	case "create":
		if o.server && o.id != "" {
			return []string{"InvalidArgument"}, ""
		}
		if o.normal && normal != "" {
			return []string{"AlreadyExists"}, ""
		}
		if o.gen == "" {
			return []string{"OK"}, "an id"
		}
		if _, ok := st.modes[o.gen]; ok {
			return []string{"OK"}, "an id that isn't in use"
		}
		put(o.gen, elMode{o.title, o.normal, -1})
	case "add":
		if exists || o.normal && normal != "" {
			return []string{"AlreadyExists"}, ""
		}
		put(o.id, elMode{o.title, o.normal, -1})
		result = ""
	case "update":
		if o.server && o.id == "" {
			return []string{"InvalidArgument"}, ""
		}
		conflict := o.normal && normal != "" && normal != o.id
		if !exists && !(o.create && !o.server) {
			if conflict {
				return []string{"NotFound", "AlreadyExists"}, ""
			}
			return []string{"NotFound"}, ""
		}
		m := st.modes[o.id]
		if o.mask == nil {
			m = elMode{o.title, o.normal, -1}
		}
		for _, p := range o.mask {
			switch p {
			case "title":
				m.title = o.title
			case "normal":
				m.normal = o.normal
			}
		}
		if conflict {
			if m.normal {
				return []string{"AlreadyExists"}, ""
			}
			codes = []string{"AlreadyExists"} // fine, it's what's documented for modes that are normal
			if o.code == "AlreadyExists" {
				return codes, ""
			}
		}
		put(o.id, m)
	case "delete":
		if o.server && o.id == "" {
			return []string{"InvalidArgument"}, ""
		}
		if !exists {
			if !o.allowMissing {
				return []string{"NotFound"}, ""
			}
			return []string{"OK"}, ""
		}
		if st.active == o.id {
			return []string{"FailedPrecondition"}, ""
		}
		delete(st.modes, o.id)
	case "setActive":
		if !exists {
			return []string{"NotFound"}, ""
		}
		st.active, st.ever = o.id, true
		st.start = -1
		if o.start > 0 {
			st.start = o.start
		}
	case "changeActive":
		if o.server && o.id == "" {
			return []string{"InvalidArgument"}, ""
		}
		if !exists {
			return []string{"NotFound"}, ""
		}
		activate(o.id)
	case "clear":
		if normal == "" {
			return []string{"NotFound"}, ""
		}
		activate(normal)
	}
	return append(codes, "OK"), result
}

func hasCode(codes []string, c string) bool {
	for _, x := range codes {
		if x == c {
			return true
		}
	}
	return false
}

// check compares the model with the reference, and the invariants.
func (w *elWorld) check(st *elState, last *elOp, desc string) {
	s := w.s
	got, normals := w.observe()
	if len(normals) > 1 {
		s.Fail("%s: modes %s are all normal", desc, strings.Join(normals, " and "))
	}
	if _, ok := got.modes[got.active]; !ok && st.ever {
		s.Fail("%s: the active mode is %q, which doesn't exist", desc, got.active)
	}
	if got.String() != st.String() {
		s.Fail("%s: the model has %s instead of %s", desc, got, st)
	}
	n := w.m("NormalMode")
	if s.P.Truth(n[1]) {
		if id := s.str(s.Field(n[0], "Id")); id != st.normal() {
			s.Fail("%s: the normal mode is said to be %q instead of %q", desc, id, st.normal())
		}
	} else if st.normal() != "" {
		s.Fail("%s: no normal mode is found", desc)
	}
	if last == nil {
		st.start = got.start
		return
	}
	if st.start == -2 {
		if lo, hi := modelEpoch+last.lo, modelEpoch+last.hi; got.start < lo || got.start >= hi {
			s.Fail("%s: switching modes sets the start time to %s instead of the current time of the model's clock", desc, startName(got.start))
		}
	} else if got.start != st.start {
		s.Fail("%s: the start time is %s instead of %s", desc, startName(got.start), startName(st.start))
	}
	st.start = got.start
}

func startName(n int64) string {
	if n == -1 {
		return "absent"
	}
	return fmt.Sprint(n, "s")
}

// observe reads everything.
func (w *elWorld) observe() (*elState, []string) {
	s := w.s
	st := &elState{modes: map[string]elMode{}}
	var normals []string
	last := ""
	for i, m := range s.list(w.m("Modes")[0]) {
		id := s.str(s.Field(m, "Id"))
		st.modes[id] = w.mode(m)
		if st.modes[id].normal {
			normals = append(normals, id)
		}
		if i > 0 && id <= last {
			s.Fail("modes aren't listed in order: %s after %s", id, last)
		}
		last = id
	}
	a := w.m("ActiveMode")[0]
	st.active = s.str(s.Field(a, "Id"))
	st.start = s.seconds(s.Field(a, "StartTime"))
	return st, normals
}

// elSetups are the states to start from.
type elSetup struct {
	name    string
	initial map[string]elMode // by options
	active  string            // by option
	ops     []elOp
}

func elSetups() []elSetup {
	var r []elSetup
	for _, a := range []string{"", "plain", "normal"} {
		for _, b := range []string{"", "plain", "normal"} {
			if a == "normal" && b == "normal" {
				continue
			}
			var ops []elOp
			ids := []string{}
			for i, k := range []string{a, b} {
				if k != "" {
					id := string(rune('a' + i))
					ops = append(ops, elOp{kind: "add", id: id, title: "T" + id, normal: k == "normal"})
					ids = append(ids, id)
				}
			}
			name := fmt.Sprintf("a:%s b:%s", orNone(a), orNone(b))
			r = append(r, elSetup{name: name, ops: ops})
			for _, id := range ids {
				r = append(r, elSetup{name: name + " active:" + id, ops: append(append([]elOp{}, ops...), elOp{kind: "changeActive", id: id})})
			}
		}
	}
	m := map[string]elMode{"a": {"Ta", true, -1}, "b": {"Tb", false, -1}}
	r = append(r,
		elSetup{name: "configured", initial: m},
		elSetup{name: "configured with active", initial: m, active: "b"},
		elSetup{name: "configured with a dummy active", initial: map[string]elMode{"b": {"Tb", false, -1}}, active: "a"},
	)
	return r
}

func orNone(s string) string {
	if s == "" {
		return "none"
	}
	return s
}

func (su elSetup) start(s *Scn) (*elWorld, *elState) {
	var opts []Val
	st := &elState{modes: map[string]elMode{}, active: su.active, start: -1}
	for _, id := range sortedKeys(su.initial) {
		m := su.initial[id]
		opts = append(opts, s.F(electricPkg, "WithInitialMode", s.elMode(id, m.title, m.normal, 0)))
		st.modes[id] = m
	}
	if su.active != "" {
		opts = append(opts, s.F(electricPkg, "WithInitialActiveMode", s.elMode(su.active, "initial", false, 0)))
	}
	w := s.newElectric(opts...)
	for i := range su.ops {
		o := su.ops[i]
		o.run(w)
		o.ref(st)
		if o.code != "OK" {
			s.Stop("setup: %s returns %s", &o, o.code)
		}
		got, _ := w.observe()
		st.start = got.start
	}
	w.check(st, nil, "setup ("+su.name+")")
	return w, st
}

// elOps are the operations to apply.
func elOps() []elOp {
	var r []elOp
	for _, srv := range []bool{false, true} {
		r = append(r, elOp{kind: "create", title: "new", server: srv}, elOp{kind: "create", title: "new", normal: true, server: srv})
		if srv {
			r = append(r, elOp{kind: "create", id: "q", server: srv}, elOp{kind: "update", server: srv}, elOp{kind: "delete", server: srv}, elOp{kind: "changeActive", server: srv})
		}
		for _, id := range []string{"a", "b", "q"} {
			if !srv {
				r = append(r, elOp{kind: "add", id: id, title: "added"}, elOp{kind: "add", id: id, title: "added", normal: true})
				r = append(r, elOp{kind: "setActive", id: id, title: "set"}, elOp{kind: "setActive", id: id, start: 77})
				r = append(r, elOp{kind: "update", id: id, title: "upd", normal: true, create: true}, elOp{kind: "update", id: id, normal: true, mask: []string{"normal"}, paths: true})
			}
			r = append(r, elOp{kind: "changeActive", id: id, server: srv})
			for _, n := range []bool{false, true} {
				r = append(r, elOp{kind: "update", id: id, title: "upd", normal: n, server: srv},
					elOp{kind: "update", id: id, title: "upd", normal: n, mask: []string{"normal"}, server: srv},
					elOp{kind: "update", id: id, title: "upd", normal: n, mask: []string{"title"}, server: srv},
					elOp{kind: "delete", id: id, allowMissing: n, server: srv})
			}
			r = append(r, elOp{kind: "update", id: id, title: "upd", normal: true, mask: []string{"title", "normal"}, server: srv})
		}
		r = append(r, elOp{kind: "clear", server: srv})
	}
	return r
}

func (o *elOp) step(w *elWorld, st *elState, desc string) {
	s := w.s
	before := st.String()
	o.run(w)
	codes, result := o.ref(st)
	if !hasCode(codes, o.code) {
		s.Fail("%s: returns %s instead of %s (in %s)", desc, o.code, strings.Join(codes, " or "), before)
	} else if o.code == "OK" && o.result != "" && o.result != result && result != "" {
		s.Fail("%s: returns %s instead of %s (in %s)", desc, o.result, result, before)
	}
	w.check(st, o, desc+" ("+o.code+") in "+before)
}

func c19Sequential(c *Ctx) {
	fn := c.Method(electricPkg, "Model", "DeleteMode")
	cfg := func() *absint.Config { return worldCfg(&absint.Config{Threads: true, MaxSteps: 2000000}) }
	ops := elOps()
	setups := elSetups()
	few := []elOp{
		{kind: "add", id: "a", title: "x"}, {kind: "add", id: "a", title: "x", normal: true}, {kind: "add", id: "b", title: "y", normal: true},
		{kind: "update", id: "a", title: "z", normal: true, mask: []string{"normal"}}, {kind: "update", id: "a", title: "z"},
		{kind: "delete", id: "a"}, {kind: "delete", id: "b", allowMissing: true},
		{kind: "changeActive", id: "a"}, {kind: "changeActive", id: "b"}, {kind: "setActive", id: "a"}, {kind: "clear"},
	}
	c.Count("electric start states", len(setups))
	c.Count("electric operations", len(ops))
	for _, su := range setups {
		su := su
		c.Explore("modes-sequential", "2 operations from "+su.name, fn.Pos(), cfg(), func(s *Scn) {
			w, st := su.start(s)
			for i := 0; i < 2; i++ {
				os := ops
				if i == 1 && c.Tier != "thorough" {
					os = few
				}
				o := os[s.Pick(fmt.Sprint("op", i), len(os))]
				o.step(w, st, o.String())
			}
		})
	}
	// longer sequences of a few operations, from nothing
	n := 3
	if c.Tier == "thorough" {
		n = 4
	}
	c.Explore("modes-sequential", fmt.Sprintf("%d operations from nothing", n), fn.Pos(), cfg(), func(s *Scn) {
		w, st := elSetup{name: "nothing"}.start(s)
		desc := ""
		for i := 0; i < n; i++ {
			o := few[s.Pick(fmt.Sprint("op", i), len(few))]
			desc += " " + o.String()
			o.step(w, st, strings.TrimSpace(desc))
		}
	})
	for _, m := range []string{"CreateMode", "AddMode", "UpdateMode", "DeleteMode", "SetActiveMode", "ChangeActiveMode", "ChangeToNormalMode"} {
		var _ *ssa.Function = c.Method(electricPkg, "Model", m)
	}
}

func c19Concurrent(c *Ctx) {
	fn := c.Method(electricPkg, "Model", "ChangeActiveMode")
	ops := []elOp{
		{kind: "create", title: "new", normal: true},
		{kind: "add", id: "q", title: "added", normal: true},
		{kind: "update", id: "a", title: "upd", normal: true},
		{kind: "update", id: "b", normal: true, mask: []string{"normal"}, server: true},
		{kind: "update", id: "a", mask: []string{"normal"}},
		{kind: "delete", id: "a"}, {kind: "delete", id: "b", allowMissing: true, server: true},
		{kind: "changeActive", id: "a"}, {kind: "changeActive", id: "b", server: true},
		{kind: "setActive", id: "b", title: "set"}, {kind: "clear"},
	}
	var setups []elSetup
	for _, su := range elSetups() {
		switch su.name {
		case "a:plain b:plain", "a:normal b:plain", "a:normal b:plain active:a", "a:normal b:plain active:b", "a:plain b:none":
			setups = append(setups, su)
		}
	}
	if len(setups) < 5 {
		c.Undecided("modes-concurrent", "enumeration", 0, "start states are missing")
	}
	for _, su := range setups {
		su := su
		cfg := worldCfg(&absint.Config{Threads: true, Preempt: 1, MaxSteps: 2000000})
		cfg.PreemptAt = func(p *absint.Path, t *absint.Thread, what string) bool {
			return strings.HasPrefix(t.Name, "op") && !strings.HasPrefix(what, "go")
		}
		if c.Tier == "thorough" {
			cfg.Preempt = 2
		}
		c.Explore("modes-concurrent", "2 operations in "+su.name, fn.Pos(), cfg, func(s *Scn) {
			w, st := su.start(s)
			i := s.Pick("first", len(ops))
			j := i + s.Pick(fmt.Sprint("second", i), len(ops)-i)
			a, b := ops[i], ops[j]
			os := []*elOp{&a, &b}
			for k, o := range os {
				s.P.Spawn(fmt.Sprintf("op%d", k), func() { o.run(w) })
			}
			s.P.Settle()
			desc := a.String() + " and " + b.String()
			for _, o := range os {
				if !o.ended {
					s.Stop("%s: %s doesn't return", desc, o)
				}
			}
			got, normals := w.observe()
			if len(normals) > 1 {
				s.Fail("%s in %s: modes %s are all normal", desc, st, strings.Join(normals, " and "))
			}
			changed := st.ever
			for _, o := range os {
				changed = changed || o.code == "OK" && (o.kind == "setActive" || o.kind == "changeActive" || o.kind == "clear")
			}
			if _, ok := got.modes[got.active]; !ok && changed {
				s.Fail("%s in %s: the active mode is %q, which doesn't exist", desc, st, got.active)
			}
			for _, order := range [][]*elOp{{&a, &b}, {&b, &a}} {
				n := st.clone()
				ok := true
				for _, o := range order {
					codes, result := o.ref(n)
					ok = ok && hasCode(codes, o.code) && (o.code != "OK" || result == "" || o.result == "" || result == o.result)
				}
				if ok && n.String() == got.String() {
					return
				}
			}
			s.Fail("%s in %s: no order explains that they return %s %s and %s %s and leave %s", desc, st, a.code, a.result, b.code, b.result, got)
		})
	}
}
