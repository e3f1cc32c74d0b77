package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"scverify/internal/absint"
	"scverify/internal/load"
)

// C14: the servers that expose a resource through Get, Update and Pull behave like one register.
//
// The registers are discovered: every server type with a Get and an Update that return the same message, and a Pull that
// streams changes with that message. Requests are known messages, what the servers do with them (masks, interceptors,
// subscriptions, presets) is interpreted.

func init() {
	register("C14", "register", "Updates, reads and subscriptions of a server agree", c14Register)
	register("C14", "register-race", "Streams and reads agree after updates that race", c14Race)
}

// trReg is a resource a server exposes.
type trReg struct {
	pkg, typ          string
	model             *model // nil when the server has a constructor without arguments
	ctor              *ssa.Function
	get, update, pull *ssa.Function
	msg               *types.Named
	change            *types.Named    // elements of the changes pulled
	value             string          // the field of changes that has the value
	upField           string          // the field of the update request that has the value
	lists             []*ssa.Function // pulls of the collection the value is in
}

func (r *trReg) String() string {
	return strings.TrimPrefix(r.pkg, "pkg/trait/") + "." + r.typ + "." + r.msg.Obj().Name()
}

// reqMsg is the request type and resulting message of a unary method.
func reqMsg(f *ssa.Function) (req, res *types.Named) {
	sig := f.Signature
	if sig.Params().Len() != 2 || sig.Results().Len() != 2 || !isContext(sig.Params().At(0).Type()) {
		return nil, nil
	}
	a, ok1 := sig.Params().At(1).Type().(*types.Pointer)
	b, ok2 := sig.Results().At(0).Type().(*types.Pointer)
	if !ok1 || !ok2 {
		return nil, nil
	}
	req, _ = a.Elem().(*types.Named)
	res, _ = b.Elem().(*types.Named)
	return req, res
}

// msgField finds the field of a generated message that has a message of the type.
func msgField(t *types.Named, msg *types.Named) string {
	for _, f := range tmFields(t) {
		if pt, ok := f.t.(*types.Pointer); ok && types.Identical(pt.Elem(), msg) {
			if f.name == "old_value" || f.name == "new_value" {
				return ""
			}
			return f.name
		}
	}
	return ""
}

func hasField(t types.Type, name string) bool {
	for _, f := range tmFields(t) {
		if f.name == name {
			return true
		}
	}
	return false
}

// trRegs discovers the registers.
func (c *Ctx) trRegs() []*trReg {
	ctors := map[string]*model{}
	for _, m := range c.models() {
		ctors[m.pkg+"."+m.name] = m
	}
	var r []*trReg
	for pp, sp := range c.P.SSA {
		if !strings.HasPrefix(pp, load.Module+"/pkg/trait/") {
			continue
		}
		rel := strings.TrimPrefix(pp, load.Module+"/")
		for name, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := t.Type().(*types.Named)
			if !ok {
				continue
			}
			ctor := sp.Func("New" + name)
			if ctor == nil {
				continue
			}
			var gets, ups, pulls []*ssa.Function
			ms := c.P.Prog.MethodSets.MethodSet(types.NewPointer(n))
			for i := 0; i < ms.Len(); i++ {
				f := c.P.Prog.MethodValue(ms.At(i))
				if f == nil || f.Pkg != sp || f.Synthetic != "" {
					continue
				}
				switch {
				case strings.HasPrefix(f.Name(), "Get"):
					gets = append(gets, f)
				case strings.HasPrefix(f.Name(), "Update"):
					ups = append(ups, f)
				case strings.HasPrefix(f.Name(), "Pull"):
					pulls = append(pulls, f)
				}
			}
			for _, u := range ups {
				ureq, msg := reqMsg(u)
				if ureq == nil || msg == nil || !hasField(ureq, "update_mask") {
					continue
				}
				var get *ssa.Function
				for _, g := range gets {
					if greq, gm := reqMsg(g); greq != nil && gm == msg && strings.TrimPrefix(g.Name(), "Get") == strings.TrimPrefix(u.Name(), "Update") {
						get = g
					}
				}
				if get == nil {
					continue
				}
				for _, pl := range pulls {
					sig := pl.Signature
					if sig.Params().Len() != 2 || sig.Results().Len() != 1 {
						continue
					}
					sp, ok := streamMsg(sig.Params().At(1).Type())
					if !ok || !hasField(sp, "changes") {
						continue
					}
					ch, ok := elemOfField(sp, "Changes").(*types.Named)
					if !ok {
						continue
					}
					val := msgField(ch, msg)
					if val == "" {
						continue
					}
					if s := ctor.Signature; s.Params().Len() > 1 || s.Variadic() && !isResourceOption(s.Params().At(0).Type()) {
						continue // routers forward, C12 is about them
					}
					reg := &trReg{pkg: rel, typ: name, ctor: ctor, get: get, update: u, pull: pl, msg: msg, change: ch, value: val}
					reg.upField = msgField(ureq, msg)
					for _, l := range pulls {
						if l.Signature.Params().Len() != 2 {
							continue
						}
						if m, ok := streamMsg(l.Signature.Params().At(1).Type()); ok && hasField(m, "changes") {
							for _, f := range tmFields(elemOfField(m, "Changes")) {
								if pt, ok := f.t.(*types.Pointer); ok && f.name == "new_value" && types.Identical(pt.Elem(), msg) {
									reg.lists = append(reg.lists, l)
								}
							}
						}
					}
					if ctor.Signature.Params().Len() == 1 && !ctor.Signature.Variadic() {
						pt, ok := ctor.Signature.Params().At(0).Type().(*types.Pointer)
						if !ok {
							continue
						}
						mn, ok := pt.Elem().(*types.Named)
						if !ok {
							continue
						}
						reg.model = ctors[rel+"."+mn.Obj().Name()]
						if reg.model == nil && mn != msg {
							continue
						}
					}
					r = append(r, reg)
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func isResourceOption(t types.Type) bool {
	sl, ok := t.(*types.Slice)
	return ok && types.TypeString(sl.Elem(), nil) == load.Module+"/"+resPkg+".Option"
}

// streamMsg is what a server stream sends.
func streamMsg(stream types.Type) (*types.Named, bool) {
	ms := types.NewMethodSet(stream)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Send" {
			if pt, ok := ms.At(i).Type().(*types.Signature).Params().At(0).Type().(*types.Pointer); ok {
				n, ok := pt.Elem().(*types.Named)
				return n, ok
			}
		}
	}
	return nil, false
}

// trExtra says what isn't found out from the types.
type trExtra struct {
	key    string // the field of the message that says which item it is
	getKey string // the field of requests
	add    string // the method of the model that adds an item, empty to pass initial records
	values []map[string]any
	// more requests, without the value
	requests []map[string]any
}

var trExtras = map[string]trExtra{
	"Hail":             {key: "id", getKey: "id"},
	"Publication":      {key: "id", getKey: "id", add: "CreatePublication"},
	"Consumable_Stock": {key: "consumable", getKey: "consumable", add: "CreateStock"},
	"ElectricMode": {add: "AddMode", values: []map[string]any{
		{"id": "a"}, {"id": "b", "title": "ignored"}, {"id": "nope"}, {},
	}},
	"FanSpeed": {values: []map[string]any{
		{"preset": "med"}, {"preset": "nope"}, {"percentage": 30}, {"preset_index": 2}, {"percentage": 15.5, "direction": 1}, {"preset_index": 99}, {"percentage": 100}, {},
	}},
	"ModeValues": {values: []map[string]any{
		{"values": map[string]any{"spin": "slow"}}, {"values": map[string]any{"spin": "nope"}}, {"values": map[string]any{"temperature": "whites", "spin": "fast"}}, {"values": map[string]any{"nope": "auto"}}, {},
	}},
	"OpenClosePositions": {values: []map[string]any{
		{"states": []any{map[string]any{"direction": 1, "open_percent": 20}}},
		{"states": []any{map[string]any{"direction": 2, "open_percent": 20}, map[string]any{"direction": 1, "open_percent": 70, "resistance": 1}}},
		{"states": []any{map[string]any{"open_percent": 90}}},
		{"preset": map[string]any{"name": "nope"}},
		{"preset": map[string]any{"name": "p"}},
		{"preset": map[string]any{"name": "q"}, "states": []any{map[string]any{"direction": 3, "open_percent": 20}}},
		{},
	}},
	"Brightness": {values: []map[string]any{
		{"level_percent": 30}, {"level_percent": 170}, {"level_percent": -20}, {"preset": map[string]any{"name": "p", "title": "P"}},
		{"preset": map[string]any{"name": "q"}, "level_percent": 10}, {"preset": map[string]any{"name": "nope"}},
		{"level_percent": 60, "brightness_tween": map[string]any{"total_duration": map[string]any{"seconds": 60}}},
		{"brightness_tween": map[string]any{"progress": 20}}, {},
	}},
	"AudioLevel": {values: []map[string]any{{"gain": 30}, {"gain": 170}, {"gain": -5, "muted": true}, {"muted": true}, {}}},
}

// trVals are the values written.
func (s *Scn) trVals(r *trReg) []map[string]any {
	x := trExtras[r.msg.Obj().Name()]
	if x.values != nil {
		return x.values
	}
	var vals []map[string]any
	for n := 0; n < 3; n++ {
		vals = append(vals, s.sampleFields(r.msg, n, 1))
	}
	// without the messages in it
	for n := 3; n < 5; n++ {
		vals = append(vals, s.sampleFields(r.msg, n, 0))
	}
	vals = append(vals, map[string]any{})
	return vals
}

// trMasks are the masks tried, nil for none.
func trMasks(t types.Type) [][]string {
	r := [][]string{nil}
	var all []string
	for _, f := range tmFields(t) {
		r = append(r, []string{f.name})
		all = append(all, f.name)
		if f.kind == "message" {
			for _, g := range tmFields(f.t.Underlying().(*types.Pointer).Elem()) {
				r = append(r, []string{f.name + "." + g.name})
				break
			}
		}
	}
	if len(all) > 1 {
		r = append(r, []string{all[0], all[len(all)-1]})
	}
	return append(r, []string{"nope"})
}

// trWorld is a server with two open streams.
type trWorld struct {
	*Scn
	r   *trReg
	x   trExtra
	srv Val
	key string
}

func (s *Scn) trWorld(r *trReg) *trWorld {
	w := &trWorld{Scn: s, r: r, x: trExtras[r.msg.Obj().Name()]}
	if r.model == nil {
		var args []Val
		if r.ctor.Signature.Params().Len() == 1 && !r.ctor.Signature.Variadic() {
			args = append(args, s.sample(r.msg, 5, 1))
		}
		if r.ctor.Signature.Variadic() {
			args = append(args, absint.MkNil(r.ctor.Signature.Params().At(0).Type()))
		}
		w.srv = s.Call(r.ctor, args...)[0]
		return w
	}
	var mv Val
	keys := []string{"a", "b"}
	item := func(k string) Val {
		f := s.sampleFields(r.msg, 7, 1)
		f[w.x.key] = k
		return s.build(r.msg, f)
	}
	switch {
	case w.x.key != "" && w.x.add == "":
		var opts []Val
		for _, k := range keys {
			opts = append(opts, s.F(resPkg, "WithInitialRecord", strID(k), Iface(item(k))))
		}
		mv = s.F(r.pkg, "NewModel", opts...)
	default:
		mv = s.newModelWith(r.model, s.trPresets(r)...)
		if w.x.add != "" {
			for _, k := range keys {
				it := map[string]any{"id": k, "title": "mode " + k}
				var iv Val
				if w.x.key != "" {
					iv = item(k)
				} else {
					iv = s.build(r.msg, it)
				}
				res := s.M(mv, r.pkg, r.model.name, w.x.add, iv)
				if len(res) > 0 {
					if code := s.Code(res[len(res)-1]); code != "OK" {
						s.P.Stuck("adding an item fails: %s", code)
					}
				}
			}
		}
	}
	if w.x.key != "" {
		w.key = "a"
	}
	w.srv = s.Call(r.ctor, mv)[0]
	return w
}

// trPresets are options that add presets to a model.
func (s *Scn) trPresets(r *trReg) []Val {
	var opts []Val
	switch r.msg.Obj().Name() {
	case "Brightness":
		for i, n := range []string{"p", "q"} {
			desc := s.build(s.C.ExtType(traitsPkg, "LightPreset"), map[string]any{"name": n, "title": n})
			opts = append(opts, s.F(r.pkg, "WithPreset", absint.MkFloat(types.Typ[types.Float32], float64(30+30*i)), desc))
		}
	case "OpenClosePositions":
		pt := s.C.ExtType(traitsPkg, "OpenClosePosition")
		for i, n := range []string{"p", "q"} {
			desc := s.build(s.C.ExtType(traitsPkg, "OpenClosePositions_Preset"), map[string]any{"name": n})
			a := s.build(pt, map[string]any{"direction": 1, "open_percent": 20 + 30*i})
			b := s.build(pt, map[string]any{"direction": 2, "open_percent": 20})
			opts = append(opts, s.F(r.pkg, "WithPreset", desc, a, b))
		}
	}
	return opts
}

func (w *trWorld) request(more map[string]any) map[string]any {
	f := map[string]any{}
	if w.key != "" {
		f[w.x.getKey] = w.key
	}
	for k, v := range more {
		f[k] = v
	}
	return f
}

// read calls Get. Messages are rendered at once, they may change later.
func (w *trWorld) read(mask []string) (desc string, code string, v Val) {
	req := w.request(nil)
	if mask != nil {
		req["read_mask"] = w.pm().mask(mask...)
	}
	v, err := w.rpcOn(w.srv, w.r.pkg, w.r.typ, w.r.get.Name(), req)
	if code := w.Code(err); code != "OK" {
		return "", code, nil
	}
	return w.render(v), "OK", v
}

// write calls Update.
func (w *trWorld) write(val map[string]any, mask []string, more map[string]any) (desc string, code string) {
	f := map[string]any{}
	for k, v := range val {
		f[k] = v
	}
	if w.key != "" {
		f[w.x.key] = w.key
	}
	req := map[string]any{}
	if w.r.upField != "" {
		req[w.r.upField] = f
	} else {
		// the request has the fields of the message
		for k, v := range f {
			req[k] = v
		}
	}
	for k, v := range more {
		req[k] = v
	}
	if mask != nil {
		req["update_mask"] = w.pm().mask(mask...)
	}
	v, err := w.rpcOn(w.srv, w.r.pkg, w.r.typ, w.r.update.Name(), req)
	if code := w.Code(err); code != "OK" {
		return "", code
	}
	return w.render(v), "OK"
}

// project is what is left of a value through a mask.
func (w *trWorld) project(v Val, mask []string) string {
	if mask == nil {
		return w.render(v)
	}
	c := w.clone(v)
	tmProject(w.P, tmStruct(w.P, c), mask)
	return w.render(c)
}

// sub is an open Pull.
type trSub struct {
	name   string
	got    []string // values
	names  []string
	ended  bool
	result Val
	cancel Val
}

func (w *trWorld) open(name string, updatesOnly bool, mask []string) *trSub {
	return w.openOn(w.r.pull, w.r.value, name, updatesOnly, mask)
}

// openList opens a stream of the collection, only changes to our item are recorded.
func (w *trWorld) openList(pull *ssa.Function, name string, updatesOnly bool) *trSub {
	return w.openOn(pull, "new_value", name, updatesOnly, nil)
}

func (w *trWorld) openOn(pull *ssa.Function, value, name string, updatesOnly bool, mask []string) *trSub {
	sub := &trSub{name: name}
	ctx := w.Ctx("pull " + name)
	sub.cancel = ctx
	st := w.serverStream(ctx)
	st.onSend = func(m Val) Val {
		sv := tmStruct(w.P, m)
		if sv == nil {
			w.P.Stuck("an unknown message is sent")
		}
		for _, f := range tmFields(sv.T) {
			if f.name != "changes" {
				continue
			}
			l, _ := tmGet(w.P, sv, f)
			if l == nil {
				continue
			}
			for _, ch := range w.list(l) {
				cv := tmStruct(w.P, ch)
				val, nm := "none", ""
				for _, g := range tmFields(cv.T) {
					x, has := tmGet(w.P, cv, g)
					if !has {
						continue
					}
					switch g.name {
					case "name":
						nm = w.str(x)
					case value:
						val = w.render(x)
						if value == "new_value" && w.key != "" {
							for _, h := range tmFields(w.r.msg) {
								if k, _ := tmGet(w.P, tmStruct(w.P, x), h); h.name == w.x.key && w.str(k) != w.key {
									val = ""
								}
							}
						}
					}
				}
				if val == "" {
					continue // of another item
				}
				sub.got = append(sub.got, val)
				sub.names = append(sub.names, nm)
			}
		}
		return nil
	}
	rt := pointee(pull.Signature.Params().At(0).Type())
	req := w.request(map[string]any{"name": name})
	if pull != w.r.pull {
		delete(req, w.x.getKey)
	}
	if hasField(rt, "updates_only") {
		req["updates_only"] = updatesOnly
	}
	if mask != nil {
		req["read_mask"] = w.pm().mask(mask...)
	}
	rv := w.build(rt, req)
	w.P.Spawn("env pull "+name, func() {
		r := w.Call(pull, w.srv, rv, st.v)
		sub.ended, sub.result = true, r[0]
	})
	w.P.Settle()
	return sub
}

// sees reports what's wrong with a subscription that should have been sent a value last.
func (w *trWorld) sees(what string, sub *trSub, from int, want string, must bool) {
	if sub.ended {
		w.Fail("%s: the stream %s ended", what, sub.name)
		return
	}
	for i, n := range sub.names {
		if n != sub.name {
			w.Fail("%s: change %d of the stream of %s has the name %q", what, i, sub.name, n)
		}
	}
	switch {
	case must && len(sub.got) == from:
		w.Fail("%s: nothing is sent to the stream of %s", what, sub.name)
	case len(sub.got) > from && sub.got[len(sub.got)-1] != want:
		w.Fail("%s: the stream of %s ends with %s instead of %s", what, sub.name, sub.got[len(sub.got)-1], want)
	}
}

// c14Cfg is a world where time doesn't pass by itself, tickers don't tick.
func c14Cfg() *absint.Config {
	cfg := c20Cfg()
	old := cfg.Hook
	cfg.Hook = func(c *absint.Call) (Val, bool) {
		if c.Name == "time.NewTicker" {
			t := c.Sig.Results().At(0).Type().(*types.Pointer).Elem()
			tv := c.P.Alloc(t, c.P.Fresh("ticker"))
			sv := c.P.Deref(tv).Load0().(*absint.StructV)
			ct := t.Underlying().(*types.Struct).Field(0).Type()
			sv.Field(0).Set(c.P, c.P.MkChan(ct, c.P.Fresh("neverticks"), 0))
			return tv, true
		}
		return old(c)
	}
	cfg.NoTimers = true
	return cfg
}

func (c *Ctx) eachReg(rule string, f func(r *trReg)) {
	regs := c.trRegs()
	c.Count("registers", len(regs))
	if len(regs) < 14 {
		c.Undecided(rule, "enumeration", 0, "found %d resources with Get, Update and Pull, there are at least 14", len(regs))
	}
	for _, r := range regs {
		f(r)
	}
}

func c14Register(c *Ctx) {
	c.eachReg("register", func(r *trReg) {
		ureq, _ := reqMsg(r.update)
		c.Explore("register", r.String(), r.update.Pos(), c14Cfg(), func(s *Scn) {
			w := s.trWorld(r)
			vals, masks := s.trVals(r), trMasks(r.msg)
			full, code, v0 := w.read(nil)
			if code != "OK" {
				s.Fail("Get fails with %s", code)
				return
			}
			projMasks := masks[1 : len(masks)-1]
			// which value is written how, and read how
			vi, mi := s.Pick("value", len(vals)), s.Pick("mask", len(masks))
			pi := (vi*len(masks) + mi) % len(projMasks)
			if c.Tier == "thorough" {
				pi = s.Pick("read mask", len(projMasks))
			}
			pm := projMasks[pi]
			plain := w.open("plain", false, nil)
			only := w.open("only", true, nil)
			masked := w.open("masked", false, pm)
			onlyMasked := w.open("only masked", true, pm)
			w.sees("a new stream", plain, 0, full, true)
			var lists []*trSub
			var listed []int
			if w.key != "" && vi < 2 {
				for i, l := range r.lists {
					a, b := w.openList(l, fmt.Sprint("list", i), false), w.openList(l, fmt.Sprint("list only", i), true)
					w.sees("a new stream of "+l.Name(), a, 0, full, true)
					if len(b.got) > 0 {
						s.Fail("a stream of %s that asked for updates only starts with %s", l.Name(), b.got[0])
					}
					lists = append(lists, a, b)
				}
				listed = make([]int, len(lists))
			}
			w.sees("a new stream", masked, 0, w.project(v0, pm), true)
			if len(onlyMasked.got) != 0 {
				s.Fail("a stream with mask %v that asked for updates only starts with %s", pm, onlyMasked.got[0])
			}
			if len(only.got) != 0 {
				s.Fail("a stream that asked for updates only starts with %s", only.got[0])
			}
			var lateOnly *trSub
			for step := 0; step < 2; step++ {
				val := vals[0]
				var mask []string
				more := map[string]any{}
				k := fmt.Sprint("update ", step, " ")
				if step == 0 {
					val, mask = vals[vi], masks[mi]
					for _, f := range tmFields(ureq) {
						b, ok := f.t.(*types.Basic)
						switch {
						case !ok || f.name == r.upField || f.name == "name":
						case b.Kind() == types.Bool && s.Bool(k+f.name):
							more[f.name] = true
						case b.Kind() == types.String && s.Bool(k+f.name):
							more[f.name] = "other"
						}
					}
				} else {
					val = vals[[]int{0, 1, len(vals) - 2}[s.Pick(k+"value", 3)]]
				}
				before, _, bv := w.read(nil)
				n1, n2, n3, n4 := len(plain.got), len(only.got), len(masked.got), len(onlyMasked.got)
				projBefore := w.project(bv, pm)
				for i, l := range lists {
					listed[i] = len(l.got)
				}
				res, code := w.write(val, mask, more)
				s.P.Settle()
				after, gc, av := w.read(nil)
				if gc != "OK" {
					s.Fail("Get fails with %s", gc)
					return
				}
				what := fmt.Sprintf("update %d of %v, mask %v, answered %s", step, val, mask, code)
				if code != "OK" {
					if after != before {
						s.Fail("%s: the value changes from %s to %s", what, before, after)
					}
					if len(plain.got) > n1 || len(only.got) > n2 || len(masked.got) > n3 || len(onlyMasked.got) > n4 {
						s.Fail("%s: something is sent to streams", what)
					}
					continue
				}
				if res != after {
					s.Fail("%s: the response is %s, reading gives %s", what, res, after)
				}
				changed := after != before
				w.sees(what, plain, n1, res, changed)
				w.sees(what, only, n2, res, changed)
				if lateOnly != nil {
					w.sees(what, lateOnly, 0, res, changed)
				}
				for i, l := range lists {
					w.sees(what, l, listed[i], res, changed)
				}
				w.sees(what, masked, n3, w.project(av, pm), false)
				w.sees(what, onlyMasked, n4, w.project(av, pm), projBefore != w.project(av, pm))
				if len(masked.got) > 0 && masked.got[len(masked.got)-1] != w.project(av, pm) {
					s.Fail("%s: the stream with mask %v is at %s instead of %s", what, pm, masked.got[len(masked.got)-1], w.project(av, pm))
				}
				// reading doesn't change anything
				got, gc, _ := w.read(pm)
				if gc != "OK" || got != w.project(av, pm) {
					s.Fail("%s: Get with mask %v is %s %s instead of %s", what, pm, gc, got, w.project(av, pm))
				}
				if again, _, _ := w.read(nil); again != after {
					s.Fail("%s: reading with a mask changes the value from %s to %s", what, after, again)
				}
				late := w.open(fmt.Sprint("late", step), false, nil)
				w.sees(what+", then a new stream", late, 0, after, true)
				s.P.CancelCtx(late.cancel)
				if step == 0 {
					lateOnly = w.open("late only", true, nil)
					if len(lateOnly.got) != 0 {
						s.Fail("%s, then a new stream that asks for updates only starts with %s", what, lateOnly.got[0])
					}
				}
			}
		})
	})
}

// c14Race: after concurrent updates the streams end with what's stored, which one of the updates was answered with. (A
// stream that doesn't ask for back pressure may miss what was replaced before it could be sent.)
func c14Race(c *Ctx) {
	c.eachReg("register-race", func(r *trReg) {
		race := func(construct string, preempt int, values func(s *Scn, n int) int) {
			cfg := c14Cfg()
			cfg.Preempt = preempt
			c.Explore("register-race", construct, r.update.Pos(), cfg, func(s *Scn) {
				w := s.trWorld(r)
				vals := s.trVals(r)
				start, _, _ := w.read(nil)
				plain := w.open("plain", false, nil)
				subs := []*trSub{plain}
				if preempt == 1 {
					subs = append(subs, w.open("only", true, nil))
				}
				n := []int{len(plain.got), 0}
				var res, code [2]string
				done := 0
				first := values(s, len(vals)-1)
				for i := 0; i < 2; i++ {
					i := i
					s.Go(fmt.Sprint("update", i), func() {
						res[i], code[i] = w.write(vals[(first+i)%len(vals)], nil, nil)
						done++
					})
				}
				s.P.Settle()
				if done != 2 {
					s.Stop("an update doesn't return")
				}
				end, _, _ := w.read(nil)
				what := fmt.Sprintf("racing updates answered %v with %v", code, res)
				for i, sub := range subs {
					got := sub.got[n[i]:]
					last := start
					if len(got) > 0 {
						last = got[len(got)-1]
					}
					if last != end {
						s.Fail("%s: the stream of %s is at %s, the value is %s", what, sub.name, last, end)
					}
				}
				for j := range code {
					if code[j] == "OK" && code[1-j] != "OK" && res[j] != end {
						s.Fail("%s: the value is %s", what, end)
					}
				}
				if code[0] == "OK" && code[1] == "OK" && res[0] != end && res[1] != end {
					s.Fail("%s: the value is %s", what, end)
				}
				if code[0] != "OK" && code[1] != "OK" && start != end {
					s.Fail("%s: the value is %s, it was %s", what, end, start)
				}
			})
		}
		race(r.String(), 1, func(s *Scn, n int) int {
			if c.Tier != "thorough" {
				n = min(n, 3)
			}
			return s.Pick("values", n)
		})
		if c.Tier == "thorough" && r.msg.Obj().Name() != "OpenClosePositions" { // that's many writes
			race(r.String()+", 2 preemptions", 2, func(s *Scn, n int) int { return 0 })
		}
	})
}
