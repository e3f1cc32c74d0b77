package rules

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"scverify/internal/absint"
	"scverify/internal/load"
)

const (
	parentPkg  = "pkg/trait/parentpb"
	vendingPkg = "pkg/trait/vendingpb"
	unitPkg    = "pkg/trait/vendingpb/unitpb"
	fanPkg     = "pkg/trait/fanspeedpb"
	modePkg    = "pkg/trait/modepb"
	enterPkg   = "pkg/trait/enterleavesensorpb"
	meterPkg   = "pkg/trait/meterpb"
	pubPkg     = "pkg/trait/publicationpb"
)

func init() {
	register("C20", "parent-traits", "A child's traits are the sorted duplicate-free union and difference of what was added and removed", c20Parent)
	register("C20", "parent-concurrent", "Racing additions and removals of traits all take effect", c20ParentRace)
	register("C20", "unit-convert", "Unit conversion scales within a category, round-trips, and is an error otherwise", c20Units)
	register("C20", "vending-dispense", "Dispensing adjusts used and remaining in their own units, or reports the error and changes nothing", c20Dispense)
	register("C20", "fan-speed", "Fan speed preset, index and percentage stay consistent", c20Fan)
	register("C20", "mode-values", "Relative mode adjustments step through the available values and wrap", c20Mode)
	register("C20", "enter-leave", "Enter and leave totals follow the events", c20EnterLeave)
	register("C20", "meter", "Meter start and end times follow readings and resets", c20Meter)
	register("C20", "publication", "Publication version, publish time and acknowledgement state follow the documented protocol", c20Publication)
	register("C20", "initial", "Models constructed with explicit configuration use it", c20Initial)
}

func c20Cfg() *absint.Config { return worldCfg(&absint.Config{Threads: true, MaxSteps: 2000000}) }

// rpcOn calls a unary method of a server, the request is made from proto field names.
func (s *Scn) rpcOn(srv Val, pkg, typ, method string, req map[string]any) (msg Val, err Val) {
	fn := s.C.Method(pkg, typ, method)
	rt := pointee(fn.Signature.Params().At(1).Type())
	r := s.Call(fn, srv, s.Background(), s.build(rt, req))
	return r[0], r[1]
}

func (s *Scn) strings(v Val) []string {
	var r []string
	for _, x := range s.list(v) {
		r = append(r, s.str(x))
	}
	return r
}

// float reads a number that has to be known.
func (s *Scn) float(v Val) float64 {
	f, ok := absint.FloatOf(s.P.Resolve(v))
	if !ok {
		s.P.Stuck("unknown number %s", absint.Key(v))
	}
	return f
}

func (s *Scn) int(v Val) int64 {
	n, ok := absint.IntConst(s.P.Resolve(v))
	if !ok {
		s.P.Stuck("unknown integer %s", absint.Key(v))
	}
	return n
}

// optInt is "nil" or the integer an optional field has.
func (s *Scn) optInt(v Val) string {
	if s.P.IsNil(v) {
		return "nil"
	}
	return fmt.Sprint(s.int(s.P.Deref(v).Load()))
}

func (s *Scn) enum(pkg, name string) int64 {
	for _, p := range s.C.P.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if c, ok := p.Pkg.Scope().Lookup(name).(*types.Const); ok {
				var n int64
				fmt.Sscan(c.Val().String(), &n)
				return n
			}
		}
	}
	panic(missing{pkg + "." + name})
}

// --- parent

func setOf(xs []string) []string {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return sortedKeys(m)
}

func minus(xs, ys []string) []string {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	for _, y := range ys {
		delete(m, y)
	}
	return sortedKeys(m)
}

type parentOp struct {
	add    bool
	traits []string
}

func (o parentOp) String() string {
	n := "remove"
	if o.add {
		n = "add"
	}
	return n + fmt.Sprint(o.traits)
}

func parentOps(thorough bool) []parentOp {
	args := [][]string{{}, {"b"}, {"a"}, {"d"}, {"c", "a"}, {"b", "d"}, {"d", "b"}, {"c", "c"}, {"a", "b", "c"}, {"d", "a", "d"}, {"c", "b"}}
	if thorough {
		args = append(args, []string{"a", "b", "c", "d"}, []string{"d", "c", "b", "a"}, []string{"c", "d"}, []string{"aa", "b"}, []string{"b", "a", "b"})
	}
	var r []parentOp
	for _, a := range args {
		r = append(r, parentOp{true, a}, parentOp{false, a})
	}
	return r
}

func (s *Scn) traitsOf(child Val) []string {
	var r []string
	for _, t := range s.list(s.Field(child, "Traits")) {
		r = append(r, s.str(s.Field(t, "Name")))
	}
	return r
}

func (s *Scn) child(name string, ts ...string) Val {
	var l []any
	for _, t := range ts {
		l = append(l, map[string]any{"name": t})
	}
	return s.build(s.C.ExtType(traitsPkg, "Child"), map[string]any{"name": name, "traits": l})
}

func (s *Scn) parentCall(m Val, name string, o parentOp) []Val {
	nt := s.C.Type("pkg/trait", "Name")
	args := []Val{absint.MkString(name)}
	for _, t := range o.traits {
		args = append(args, absint.Const{T: nt, V: absint.MkString(t).V})
	}
	if o.add {
		return s.M(m, parentPkg, "Model", "AddChildTrait", args...)
	}
	return s.M(m, parentPkg, "Model", "RemoveChildTrait", args...)
}

// parentState renders the children of a model.
func (s *Scn) parentState(m Val) string {
	var r []string
	for _, ch := range s.list(s.M(m, parentPkg, "Model", "ListChildren")[0]) {
		r = append(r, s.str(s.Field(ch, "Name"))+fmt.Sprint(s.traitsOf(ch)))
	}
	return strings.Join(r, " ")
}

func parentRef(st map[string][]string) string {
	var r []string
	for _, k := range sortedKeys(st) {
		r = append(r, k+fmt.Sprint(st[k]))
	}
	return strings.Join(r, " ")
}

func c20Parent(c *Ctx) {
	fn := c.Method(parentPkg, "Model", "RemoveChildTrait")
	ops := parentOps(c.Tier == "thorough")
	c.Count("parent operations", len(ops))
	starts := [][]string{nil, {}, {"b"}, {"a", "c"}, {"b", "c", "d"}, {"a", "b", "c", "d"}}
	for i, start := range starts {
		start := start
		how := []string{"missing", "empty", "b", "a c", "b c d", "a b c d"}[i]
		c.Explore("parent-traits", "child "+how, fn.Pos(), c20Cfg(), func(s *Scn) {
			var opts []Val
			given := Val(nil)
			st := map[string][]string{"z": {"a", "d"}}
			opts = append(opts, s.F(resPkg, "WithClock", s.clock()), s.F(parentPkg, "WithInitialChildren", s.child("z", "a", "d")))
			viaOpt := s.Bool("initial")
			if start != nil {
				given = s.child("x", start...)
				st["x"] = start
				if viaOpt {
					opts = append(opts, s.F(parentPkg, "WithInitialChildren", given))
				}
			}
			m := s.F(parentPkg, "NewModel", opts...)
			if start != nil && !viaOpt {
				s.M(m, parentPkg, "Model", "AddChild", given)
			}
			if start == nil && viaOpt {
				return
			}
			desc := "from " + parentRef(st) + ":"
			var seen []Val
			var seenAs []string
			n := 2
			if c.Tier == "thorough" {
				n = 3
			}
			for k := 0; k < n; k++ {
				o := ops[s.Pick(fmt.Sprint("op", k), len(ops))]
				desc += " " + o.String()
				r := s.parentCall(m, "x", o)
				_, existed := st["x"]
				if o.add {
					st["x"] = setOf(append(append([]string{}, st["x"]...), o.traits...))
					if got := s.P.Truth(r[1]); got == existed {
						s.Fail("%s: says created is %v", desc, got)
					}
				} else if existed {
					st["x"] = minus(st["x"], o.traits)
				}
				if isNil := s.P.IsNil(r[0]); isNil != (!o.add && !existed) {
					s.Stop("%s: returns nil is %v", desc, isNil)
				} else if !isNil {
					if got := s.traitsOf(r[0]); fmt.Sprint(got) != fmt.Sprint(st["x"]) || s.str(s.Field(r[0], "Name")) != "x" {
						s.Fail("%s: returns a child with traits %v instead of %v", desc, got, st["x"])
					}
					seen = append(seen, r[0])
					seenAs = append(seenAs, s.render(r[0]))
				}
				if got := s.parentState(m); got != parentRef(st) {
					s.Stop("%s: the children are %s instead of %s", desc, got, parentRef(st))
				}
			}
			for i, v := range seen {
				if s.render(v) != seenAs[i] {
					s.Fail("%s: changes a child returned before", desc)
				}
			}
			// removing and re-adding
			s.M(m, parentPkg, "Model", "RemoveChildByName", absint.MkString("x"))
			delete(st, "x")
			if got := s.parentState(m); got != parentRef(st) {
				s.Fail("%s, remove x: the children are %s instead of %s", desc, got, parentRef(st))
			}
			s.parentCall(m, "x", parentOp{true, []string{"d", "b"}})
			st["x"] = []string{"b", "d"}
			if got := s.parentState(m); got != parentRef(st) {
				s.Fail("%s, remove x, add[d b]: the children are %s instead of %s", desc, got, parentRef(st))
			}
		})
	}
}

func c20ParentRace(c *Ctx) {
	fn := c.Method(parentPkg, "Model", "AddChildTrait")
	pairs := [][2]parentOp{
		{{true, []string{"a"}}, {true, []string{"b"}}},
		{{true, []string{"b", "c"}}, {true, []string{"c", "a"}}},
		{{true, []string{"a"}}, {false, []string{"b"}}},
		{{false, []string{"b"}}, {false, []string{"c"}}},
		{{true, []string{"d"}}, {false, []string{"c", "b"}}},
	}
	cfg := c20Cfg()
	cfg.Preempt = 2
	if c.Tier == "thorough" {
		cfg.Preempt = 3
	}
	cfg.PreemptAt = func(p *absint.Path, t *absint.Thread, what string) bool {
		return strings.HasPrefix(t.Name, "op") && !strings.HasPrefix(what, "go")
	}
	for _, exists := range []bool{true, false} {
		exists := exists
		c.Explore("parent-concurrent", fmt.Sprintf("child exists %v", exists), fn.Pos(), cfg, func(s *Scn) {
			opts := []Val{s.F(resPkg, "WithClock", s.clock())}
			var start []string
			if exists {
				start = []string{"b", "c"}
				opts = append(opts, s.F(parentPkg, "WithInitialChildren", s.child("x", start...)))
			}
			m := s.F(parentPkg, "NewModel", opts...)
			pair := pairs[s.Pick("pair", len(pairs))]
			created := make([]bool, 2)
			for k := range pair {
				k := k
				s.P.Spawn(fmt.Sprint("op", k), func() {
					r := s.parentCall(m, "x", pair[k])
					if pair[k].add {
						created[k] = s.P.Truth(r[1])
					}
				})
			}
			s.P.Settle()
			for _, t := range s.P.Live() {
				if strings.HasPrefix(t.Name, "op") {
					s.Stop("%v and %v don't return", pair[0], pair[1])
				}
			}
			ref := func(order [2]int) string {
				st := map[string][]string{}
				if exists {
					st["x"] = start
				}
				for _, k := range order {
					o := pair[k]
					_, ok := st["x"]
					if o.add {
						if created[k] == ok {
							return ""
						}
						st["x"] = setOf(append(append([]string{}, st["x"]...), o.traits...))
					} else if ok {
						st["x"] = minus(st["x"], o.traits)
					}
				}
				return parentRef(st)
			}
			got := s.parentState(m)
			if got != ref([2]int{0, 1}) && got != ref([2]int{1, 0}) {
				s.Fail("%v racing %v on %v leaves %s (created: %v)", pair[0], pair[1], start, got, created)
			}
		})
	}
}

// --- vending

type cunit struct {
	name   string
	n      int64
	cat    string // empty if unknown
	factor float64
}

// units finds all units.
func (c *Ctx) units() []cunit {
	known := map[string]cunit{
		"Consumable_METER":       {cat: "length", factor: 1},
		"Consumable_LITER":       {cat: "volume", factor: 1},
		"Consumable_CUBIC_METER": {cat: "volume", factor: 1000},
		"Consumable_CUP":         {cat: "volume", factor: 3.785411784 / 16},
		"Consumable_KILOGRAM":    {cat: "weight", factor: 1},
	}
	t := c.ExtType(traitsPkg, "Consumable_Unit")
	var r []cunit
	sc := t.(*types.Named).Obj().Pkg().Scope()
	for _, n := range sc.Names() {
		if k, ok := sc.Lookup(n).(*types.Const); ok && types.Identical(k.Type(), t) {
			u := known[n]
			u.name = strings.TrimPrefix(n, "Consumable_")
			fmt.Sscan(k.Val().String(), &u.n)
			r = append(r, u)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].n < r[j].n })
	return append(r, cunit{name: "undefined", n: 999})
}

func near(a, b, tol float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= tol*math.Max(math.Abs(a), math.Abs(b))
}

func c20Units(c *Ctx) {
	units := c.units()
	if n := len(units); n < 6 {
		c.Undecided("unit-convert", "enumeration", 0, "only %d units found", n)
	}
	c.Count("units", len(units))
	ut := c.ExtType(traitsPkg, "Consumable_Unit")
	values := []float64{0, 1, 2.5, -4, 1e-9, 1e12, 0.1}
	for _, name := range []string{"Convert", "Convert32"} {
		name := name
		fn := c.Fn(unitPkg, name)
		tol := 1e-12
		if name == "Convert32" {
			tol = 1e-6
		}
		ft := fn.Signature.Params().At(0).Type()
		for _, from := range units {
			from := from
			c.Explore("unit-convert", name+" "+from.name, fn.Pos(), c20Cfg(), func(s *Scn) {
				to := units[s.Pick("to", len(units))]
				v := values[s.Pick("value", len(values))]
				if name == "Convert32" {
					v = float64(float32(v))
				}
				conv := func(v float64, a, b cunit) (float64, string) {
					r := s.Call(fn, absint.MkFloat(ft, v), absint.Const{T: ut, V: absint.MkInt(a.n).V}, absint.Const{T: ut, V: absint.MkInt(b.n).V})
					code := s.Code(r[1])
					if code != "OK" {
						return 0, code
					}
					return s.float(r[0]), code
				}
				got, code := conv(v, from, to)
				desc := fmt.Sprintf("%v %s to %s", v, from.name, to.name)
				same := from.n == to.n || from.cat != "" && from.cat == to.cat
				if known := from.cat != "" && to.cat != "" || from.n == to.n || from.n == 0 || to.n == 0 || from.n == 999 || to.n == 999; known && (code == "OK") != same {
					s.Stop("converting %s: error is %s", desc, code)
				}
				if code != "OK" {
					return
				}
				if from.n == to.n && got != v {
					s.Fail("converting %s: is %v", desc, got)
				}
				if from.cat != "" && from.n != to.n {
					if want := v * from.factor / to.factor; !near(got, want, math.Max(tol, 1e-9)) {
						s.Fail("converting %s: is %v instead of %v", desc, got, want)
					}
				}
				back, code := conv(got, to, from)
				if code != "OK" || !near(back, v, tol) {
					s.Fail("converting %s and back: is %v (%s)", desc, back, code)
				}
			})
		}
	}
}

type amount struct {
	has  bool
	u    cunit
	n    float64
	desc string
}

func c20Dispense(c *Ctx) {
	fn := c.Method(vendingPkg, "Model", "DispenseInstantly")
	var us []cunit
	for _, u := range c.units() {
		switch u.name {
		case "NO_UNIT", "LITER", "CUBIC_METER", "CUP", "KILOGRAM", "METER":
			us = append(us, u)
		}
	}
	if len(us) != 6 {
		c.Undecided("vending-dispense", "enumeration", 0, "units are missing")
		return
	}
	stockT := c.ExtType(traitsPkg, "Consumable_Stock")
	amounts := []float64{0, 1, 10, 0.25, 2000}
	for _, du := range us {
		du := du
		for _, srv := range []bool{false, true} {
			srv := srv
			name := "dispense " + du.name
			if srv {
				name = "RPC " + name
			}
			c.Explore("vending-dispense", name, fn.Pos(), c20Cfg(), func(s *Scn) {
				q := func(a *amount) map[string]any {
					return map[string]any{"unit": int(a.u.n), "amount": a.n}
				}
				pick := func(key string) *amount {
					k := s.Pick(key, 1+len(us))
					if k == 0 {
						return &amount{}
					}
					a := &amount{has: true, u: us[k-1]}
					a.n = []float64{0, 1.5, 20}[s.Pick(key+" amount", 3)]
					return a
				}
				used, rem := pick("used"), pick("remaining")
				if used.has && rem.has && used.u.n != rem.u.n && used.n != rem.n {
					return // enough combinations
				}
				f := map[string]any{"consumable": "x", "dispensing": s.Bool("dispensing")}
				if used.has {
					f["used"] = q(used)
				}
				if rem.has {
					f["remaining"] = q(rem)
				}
				if s.Bool("dispensing") {
					f["last_dispensed"] = map[string]any{"unit": int(us[1].n), "amount": 7.0}
				}
				stock := s.build(stockT, f)
				other := s.build(stockT, map[string]any{"consumable": "y", "used": map[string]any{"amount": 3.0}})
				m := s.F(vendingPkg, "NewModel", s.F(resPkg, "WithClock", s.clock()), s.F(vendingPkg, "WithInitialStock", stock, other))
				get := func(id string) Val {
					r := s.M(m, vendingPkg, "Model", "GetStock", absint.MkString(id))
					if !s.P.Truth(r[1]) {
						s.Stop("stock %s is missing", id)
					}
					return r[0]
				}
				desc := s.render(stock)
				lastDispensed := s.render(s.Field(get("x"), "LastDispensed"))
				n := 1
				if c.Tier == "thorough" || !srv {
					n = 2
				}
				for k := 0; k < n; k++ {
					amounts := amounts
					if k > 0 {
						amounts = []float64{1, 2000}
					}
					amt := amounts[s.Pick(fmt.Sprint("amount", k), len(amounts))]
					quantity := &amount{has: true, u: du, n: amt}
					qv := s.build(c.ExtType(traitsPkg, "Consumable_Quantity"), q(quantity))
					qr := s.render(qv)
					before := get("x")
					beforeR := s.render(before)
					var msg, err Val
					if srv {
						server := s.F(vendingPkg, "NewModelServer", m)
						msg, err = s.rpcOn(server, vendingPkg, "ModelServer", "Dispense", map[string]any{"name": "dev", "consumable": "x", "quantity": qv})
					} else {
						r := s.Call(fn, m, absint.MkString("x"), qv)
						msg, err = r[0], r[1]
					}
					desc += fmt.Sprintf(" dispense %v %s", amt, du.name)
					code := s.Code(err)
					can := func(a *amount) bool { return !a.has || a.u.n == du.n || a.u.cat != "" && a.u.cat == du.cat }
					if want := can(used) && can(rem); (code == "OK") != want {
						s.Stop("%s: returns %s", desc, code)
					}
					if s.render(before) != beforeR {
						s.Fail("%s: changes stock returned before", desc)
					}
					if s.render(qv) != qr {
						s.Fail("%s: changes the quantity", desc)
					}
					after := get("x")
					if code != "OK" {
						if s.render(after) != beforeR {
							s.Fail("%s: fails but leaves %s", desc, s.render(after))
						}
						continue
					}
					scale := func(a *amount) float64 {
						if a.u.n == du.n {
							return amt
						}
						return amt * du.factor / a.u.factor
					}
					if used.has {
						used.n += scale(used)
					}
					if rem.has {
						rem.n = math.Max(0, rem.n-scale(rem))
					}
					lastDispensed = qr
					for what, v := range map[string]Val{"stored": after, "returned": msg} {
						if s.P.IsNil(v) {
							s.Stop("%s: returns nothing", desc)
						}
						for fld, a := range map[string]*amount{"Used": used, "Remaining": rem} {
							x := s.Field(v, fld)
							if s.P.IsNil(x) == a.has {
								s.Fail("%s: %s %s is %s", desc, what, fld, s.render(x))
							} else if a.has {
								got, gu := s.float(s.Field(x, "Amount")), s.int(s.Field(x, "Unit"))
								if gu != a.u.n || !near(got, a.n, 1e-5) && math.Abs(got-a.n) > 1e-6 {
									s.Fail("%s: %s %s is %v %d instead of %v %s", desc, what, fld, got, gu, a.n, a.u.name)
								}
							}
						}
						if got := s.render(s.Field(v, "LastDispensed")); got != lastDispensed {
							s.Fail("%s: %s last_dispensed is %s", desc, what, got)
						}
						if s.str(s.Field(v, "Consumable")) != "x" || s.P.Truth(s.Field(v, "Dispensing")) {
							s.Fail("%s: %s stock is %s", desc, what, s.render(v))
						}
					}
				}
				if got := s.render(get("y")); got != s.render(other) {
					s.Fail("%s: changes other stock to %s", desc, got)
				}
			})
		}
	}
	c.Explore("vending-dispense", "unknown consumable", fn.Pos(), c20Cfg(), func(s *Scn) {
		m := s.F(vendingPkg, "NewModel", s.F(resPkg, "WithClock", s.clock()))
		qv := s.build(c.ExtType(traitsPkg, "Consumable_Quantity"), map[string]any{"amount": 1.0})
		id := []string{"", "q"}[s.Pick("id", 2)]
		r := s.Call(fn, m, absint.MkString(id), qv)
		if code := s.Code(r[1]); code != "NotFound" {
			s.Fail("dispensing %q returns %s", id, code)
		}
		if n := len(s.list(s.M(m, vendingPkg, "Model", "ListInventory")[0])); n > 0 {
			s.Fail("dispensing %q creates stock", id)
		}
	})
}

// --- fan speed

type fanPreset struct {
	name string
	pct  float64
}

type fanState struct {
	pct    float64
	index  int64
	preset string
}

func (f fanState) String() string { return fmt.Sprintf("{%v%% #%d %q}", f.pct, f.index, f.preset) }

func c20Fan(c *Ctx) {
	fn := c.Method(fanPkg, "Model", "DeriveValues")
	presetLists := map[string][]fanPreset{
		"default": {{"off", 0}, {"low", 15}, {"med", 40}, {"high", 75}, {"full", 100}},
		"custom":  {{"slow", 10}, {"medium", 50}, {"fast", 90}},
		"falling": {{"x", 80}, {"y", 30}, {"z", 0}},
		"one":     {{"on", 100}},
		"none":    {},
	}
	type op struct {
		pct    float64
		index  int64
		preset string
		mask   []string
		rel    bool
		srv    bool
	}
	desc := func(o op) string {
		r := fmt.Sprintf("%v%% #%d %q", o.pct, o.index, o.preset)
		if o.mask != nil {
			r += fmt.Sprint(" mask ", o.mask)
		}
		if o.rel {
			r += " relative"
		}
		return r
	}
	for _, pn := range sortedKeys(presetLists) {
		ps := presetLists[pn]
		pn := pn
		names := []string{"nosuch"}
		for _, p := range ps {
			names = append(names, p.name)
		}
		var ops []op
		for _, srv := range []bool{false, true} {
			for _, n := range names {
				ops = append(ops, op{preset: n, srv: srv}, op{preset: n, mask: []string{"preset"}, srv: srv})
				ops = append(ops, op{preset: n, index: 1, pct: 33, srv: srv})
			}
			for _, i := range []int64{0, 1, 2, 3, 4, 5, 77, -1, -9} {
				ops = append(ops, op{index: i, mask: []string{"preset_index"}, srv: srv})
				if i != 0 {
					ops = append(ops, op{index: i, srv: srv}, op{index: i, pct: 33, srv: srv})
				}
			}
			for _, x := range []float64{0, 10, 15, 33, 40, 50, 80, 90, 100} {
				ops = append(ops, op{pct: x, srv: srv}, op{pct: x, mask: []string{"percentage"}, srv: srv})
			}
			ops = append(ops, op{srv: srv}, op{mask: []string{"direction"}, pct: 1, srv: srv})
		}
		for _, d := range []int64{-9, -1, 1, 2, 9} {
			ops = append(ops, op{index: d, rel: true, srv: true}, op{index: d, mask: []string{"preset_index"}, rel: true, srv: true})
		}
		for _, d := range []float64{-15, 0, 5, 25, 35, -40} {
			ops = append(ops, op{pct: d, rel: true, srv: true}, op{pct: d, mask: []string{"percentage"}, rel: true, srv: true})
		}
		c.Count("fan speed operations ("+pn+")", len(ops))
		c.Explore("fan-speed", "presets "+pn, fn.Pos(), c20Cfg(), func(s *Scn) {
			opts := []Val{s.F(resPkg, "WithClock", s.clock())}
			if pn != "default" {
				var l []Val
				pt := c.Type(fanPkg, "Preset")
				for _, p := range ps {
					pv := s.P.Alloc(pt, "preset")
					s.SetField(pv, "Name", absint.MkString(p.name))
					s.SetField(pv, "Percentage", absint.MkFloat(types.Typ[types.Float32], p.pct))
					l = append(l, s.P.Deref(pv).Load())
				}
				opts = append(opts, s.F(fanPkg, "WithPresets", l...))
				init := map[string]any{"percentage": 33.0, "preset_index": -1}
				if s.Bool("on preset") {
					if len(ps) == 0 {
						return
					}
					k := len(ps) - 1
					init = map[string]any{"percentage": ps[k].pct, "preset_index": k, "preset": ps[k].name}
				}
				opts = append(opts, s.F(fanPkg, "WithInitialFanSpeed", s.build(c.ExtType(traitsPkg, "FanSpeed"), init)))
			}
			m := s.F(fanPkg, "NewModel", opts...)
			server := s.F(fanPkg, "NewModelServer", m)
			state := func(v Val) fanState {
				return fanState{s.float(s.Field(v, "Percentage")), s.int(s.Field(v, "PresetIndex")), s.str(s.Field(v, "Preset"))}
			}
			get := func() fanState { return state(s.M(m, fanPkg, "Model", "FanSpeed")[0]) }
			text := ""
			for k := 0; k < 2; k++ {
				set := ops
				if k == 0 && c.Tier != "thorough" {
					// a few to get to interesting states
					set = nil
					for _, o := range ops {
						if !o.srv && (o.mask != nil && (o.mask[0] == "preset_index" && o.index >= 0 && o.index < 4 || o.mask[0] == "percentage" && (o.pct == 33 || o.pct == 0))) {
							set = append(set, o)
						}
					}
				}
				o := set[s.Pick(fmt.Sprint("op", k), len(set))]
				old := get()
				oldMsg := s.M(m, fanPkg, "Model", "FanSpeed")[0]
				oldR := s.render(oldMsg)
				text += fmt.Sprintf(" %s %s", old, desc(o))
				f := map[string]any{"percentage": o.pct, "preset_index": int(o.index), "preset": o.preset, "direction": 2}
				msg := s.build(c.ExtType(traitsPkg, "FanSpeed"), f)
				var res, err Val
				if o.srv {
					req := map[string]any{"name": "dev", "fan_speed": msg, "relative": o.rel}
					if o.mask != nil {
						req["update_mask"] = s.pm().mask(o.mask...)
					}
					res, err = s.rpcOn(server, fanPkg, "ModelServer", "UpdateFanSpeed", req)
				} else {
					args := []Val{msg}
					if o.mask != nil {
						args = append(args, s.F(resPkg, "WithUpdateMask", s.pm().mask(o.mask...)))
					}
					r := s.M(m, fanPkg, "Model", "UpdateFanSpeed", args...)
					res, err = r[0], r[1]
				}
				code := s.Code(err)
				got := get()
				if s.render(oldMsg) != oldR {
					s.Fail("%s: changes the fan speed returned before", text)
				}
				known := o.preset == ""
				for _, p := range ps {
					known = known || p.name == o.preset
				}
				if !known {
					if code != "InvalidArgument" || got != old {
						s.Stop("%s: returns %s, fan speed is %s", text, code, got)
					}
					continue
				}
				if code != "OK" {
					s.Stop("%s: returns %s", text, code)
				}
				if r := state(res); r != got {
					s.Fail("%s: returns %s, fan speed is %s", text, r, got)
				}
				// consistent?
				if len(ps) > 0 && got != old {
					switch {
					case got.preset != "":
						if got.index < 0 || int(got.index) >= len(ps) || ps[got.index].name != got.preset || ps[got.index].pct != got.pct {
							s.Fail("%s: fan speed is %s", text, got)
						}
					default:
						if got.index >= 0 {
							s.Fail("%s: no preset but fan speed is %s", text, got)
						}
						for _, p := range ps {
							if p.pct == got.pct {
								s.Fail("%s: preset %s isn't in fan speed %s", text, p.name, got)
							}
						}
					}
				}
				// as requested?
				has := func(n string) bool {
					if o.mask == nil {
						return true
					}
					return hasCode(o.mask, n)
				}
				byIndex := func(i int64) fanState {
					if i >= int64(len(ps)) {
						i = int64(len(ps)) - 1
					}
					if i < 0 {
						i = 0
					}
					return fanState{ps[i].pct, i, ps[i].name}
				}
				byPct := func(x float64) fanState {
					for i, p := range ps {
						if p.pct == x {
							return fanState{x, int64(i), p.name}
						}
					}
					return fanState{x, -1, ""}
				}
				var want *fanState
				w := func(f fanState) { want = &f }
				pct, index := o.pct, o.index
				if o.rel {
					pct += old.pct
					index += old.index
				}
				switch {
				case o.mask != nil && o.mask[0] == "direction":
					w(old)
				case has("preset") && o.preset != "" && o.preset != old.preset:
					for i, p := range ps {
						if p.name == o.preset {
							w(fanState{p.pct, int64(i), p.name})
							break
						}
					}
				case has("preset") && o.preset != "": // the same preset
				case len(ps) == 0:
				case o.mask != nil && o.mask[0] == "preset_index" && index != old.index, o.mask == nil && o.index != 0 && index != old.index:
					if index != 0 || o.pct == 0 {
						w(byIndex(index))
					}
				case o.mask != nil && o.mask[0] == "preset_index":
					w(old)
				case o.mask != nil && o.mask[0] == "percentage" && pct != old.pct, o.mask == nil && o.index == 0 && o.pct != 0 && pct != old.pct && pct != 0:
					w(byPct(pct))
				case o.mask != nil && o.mask[0] == "percentage":
					w(old)
				}
				if want != nil && *want != got {
					s.Fail("%s: fan speed is %s instead of %s", text, got, *want)
				}
			}
		})
	}
}

// --- modes

func c20Mode(c *Ctx) {
	fn := c.Method(modePkg, "ModelServer", "UpdateModeValues")
	type modeT struct {
		name   string
		values []string
	}
	modes := []modeT{{"temp", []string{"cold", "warm", "hot"}}, {"spin", []string{"auto", "fast"}}, {"single", []string{"only"}}}
	deltas := []int64{0, 1, 2, 3, 4, 7, -1, -2, -3, -4, -8, math.MaxInt32, math.MinInt32, math.MaxInt32 - 1}
	modesT := c.ExtType(traitsPkg, "Modes")
	mk := func(s *Scn) Val {
		var l []any
		for _, m := range modes {
			var vs []any
			for _, v := range m.values {
				vs = append(vs, map[string]any{"name": v})
			}
			l = append(l, map[string]any{"name": m.name, "values": vs})
		}
		return s.F(modePkg, "NewModelModes", s.build(modesT, map[string]any{"modes": l}))
	}
	values := func(s *Scn, v Val) map[string]string {
		r := map[string]string{}
		if f := s.Field(v, "Values"); !s.P.IsNil(f) {
			for _, e := range s.P.MapOf(f).Entries {
				if e.Present {
					r[s.str(e.Key)] = s.str(e.Cell.Load())
				}
			}
		}
		return r
	}
	mod := func(i, n int64) int64 { return ((i % n) + n) % n }
	c.Explore("mode-values", "initial values", fn.Pos(), c20Cfg(), func(s *Scn) {
		m := mk(s)
		if got, want := fmt.Sprint(values(s, s.M(m, modePkg, "Model", "ModeValues")[0])), fmt.Sprint(map[string]string{"temp": "cold", "spin": "auto", "single": "only"}); got != want {
			s.Fail("initial values are %s instead of %s", got, want)
		}
		avail := func(n string) string {
			var r []string
			for _, v := range s.list(s.M(m, modePkg, "Model", "AvailableValues", absint.MkString(n))[0]) {
				r = append(r, s.str(s.Field(v, "Name")))
			}
			return fmt.Sprint(r)
		}
		for _, x := range modes {
			if got := avail(x.name); got != fmt.Sprint(x.values) {
				s.Fail("available values of %s are %s", x.name, got)
			}
		}
		if got := avail("nosuch"); got != "[]" {
			s.Fail("available values of an unknown mode are %s", got)
		}
	})
	c.Explore("mode-values", "default modes", fn.Pos(), c20Cfg(), func(s *Scn) {
		m := s.F(modePkg, "NewModel")
		got := values(s, s.M(m, modePkg, "Model", "ModeValues")[0])
		n := 0
		for _, mode := range s.list(s.Field(s.M(m, modePkg, "Model", "Modes")[0], "Modes")) {
			n++
			vs := s.list(s.Field(mode, "Values"))
			name := s.str(s.Field(mode, "Name"))
			if first := s.str(s.Field(vs[0], "Name")); got[name] != first {
				s.Fail("initial value of %s is %q instead of %q", name, got[name], first)
			}
		}
		if n == 0 || n != len(got) {
			s.Fail("%d modes but %d values", n, len(got))
		}
	})
	for _, mode := range modes {
		mode := mode
		c.Explore("mode-values", "relative "+mode.name, fn.Pos(), c20Cfg(), func(s *Scn) {
			m := mk(s)
			server := s.F(modePkg, "NewModelServer", m)
			set := func(vals map[string]any) {
				r := s.M(m, modePkg, "Model", "UpdateModeValues", s.build(c.ExtType(traitsPkg, "ModeValues"), map[string]any{"values": vals}))
				if s.Code(r[1]) != "OK" {
					s.Stop("setting mode values: %s", s.Code(r[1]))
				}
			}
			// the current value: each of the values, absent, or unsupported
			cur := s.Pick("current", len(mode.values)+2)
			start := map[string]any{}
			for _, x := range modes {
				start[x.name] = x.values[0]
			}
			text := ""
			switch {
			case cur < len(mode.values):
				start[mode.name] = mode.values[cur]
				text = mode.values[cur]
			case cur == len(mode.values):
				delete(start, mode.name)
				text = "absent"
			default:
				start[mode.name] = "weird"
				text = "weird"
			}
			set(start)
			d := deltas[s.Pick("delta", len(deltas))]
			oldMsg := s.M(m, modePkg, "Model", "ModeValues")[0]
			oldR := s.render(oldMsg)
			rel := map[string]any{mode.name: int(d)}
			if s.Bool("unknown mode too") {
				rel["nosuch"] = 1
			}
			req := map[string]any{"name": "dev", "relative": map[string]any{"values": rel}}
			switch s.Pick("values", 3) {
			case 1:
				req["mode_values"] = map[string]any{}
			case 2:
				req["mode_values"] = map[string]any{"values": map[string]any{"other": "set"}}
			}
			masked := s.Bool("mask")
			if masked {
				req["update_mask"] = s.pm().mask("values")
			}
			msg, err := s.rpcOn(server, modePkg, "ModelServer", "UpdateModeValues", req)
			text = fmt.Sprintf("%s by %d from %s", mode.name, d, text)
			if code := s.Code(err); code != "OK" {
				s.Stop("%s: returns %s", text, code)
			}
			want := mode.values[0]
			if cur < len(mode.values) {
				want = mode.values[mod(int64(cur)+d, int64(len(mode.values)))]
			}
			for what, v := range map[string]Val{"returned": msg, "stored": s.M(m, modePkg, "Model", "ModeValues")[0]} {
				got := values(s, v)
				if got[mode.name] != want {
					s.Fail("%s: %s value is %q instead of %q", text, what, got[mode.name], want)
				}
				if _, ok := got["nosuch"]; ok {
					s.Fail("%s: %s has a value for an unknown mode", text, what)
				}
				if masked {
					for _, x := range modes {
						if x.name != mode.name && got[x.name] != x.values[0] {
							s.Fail("%s: %s value of %s becomes %q", text, what, x.name, got[x.name])
						}
					}
				}
			}
			if s.render(oldMsg) != oldR {
				s.Fail("%s: changes mode values returned before", text)
			}
		})
	}
	c.Explore("mode-values", "absolute", fn.Pos(), c20Cfg(), func(s *Scn) {
		m := mk(s)
		server := s.F(modePkg, "NewModelServer", m)
		req := map[string]any{"name": "dev", "mode_values": map[string]any{"values": map[string]any{"temp": "hot", "spin": "fast", "single": "only"}}}
		msg, err := s.rpcOn(server, modePkg, "ModelServer", "UpdateModeValues", req)
		if s.Code(err) != "OK" {
			s.Stop("setting values returns %s", s.Code(err))
		}
		want := fmt.Sprint(map[string]string{"temp": "hot", "spin": "fast", "single": "only"})
		for _, v := range []Val{msg, s.M(m, modePkg, "Model", "ModeValues")[0]} {
			if got := fmt.Sprint(values(s, v)); got != want {
				s.Fail("setting values results in %s", got)
			}
		}
	})
}

// --- enter leave

func c20EnterLeave(c *Ctx) {
	fn := c.Method(enterPkg, "Model", "CreateEnterLeaveEvent")
	evT := c.ExtType(traitsPkg, "EnterLeaveEvent")
	vals := []string{"nil", "0", "5", "6"}
	c.Explore("enter-leave", "events", fn.Pos(), c20Cfg(), func(s *Scn) {
		opts := []Val{s.F(resPkg, "WithClock", s.clock())}
		enter, leave := "nil", "nil"
		initial := s.Pick("initial", 4)
		num := func(x string) int {
			var n int
			fmt.Sscan(x, &n)
			return n
		}
		// nothing, both totals, one of them
		f := map[string]any{"direction": 1, "occupant": map[string]any{"name": "o"}}
		switch initial {
		case 1:
			enter, leave = "5", "5"
		case 2:
			enter = "5"
		case 3:
			leave = "5"
		}
		if enter != "nil" {
			f["enter_total"] = num(enter)
		}
		if leave != "nil" {
			f["leave_total"] = num(leave)
		}
		if initial > 0 {
			opts = append(opts, s.F(enterPkg, "WithInitialEnterLeaveEvent", s.build(evT, f)))
		}
		m := s.F(enterPkg, "NewModel", opts...)
		get := func() Val {
			r := s.M(m, enterPkg, "Model", "GetEnterLeaveEvent")
			if s.Code(r[1]) != "OK" {
				s.Stop("getting the event: %s", s.Code(r[1]))
			}
			return r[0]
		}
		text := fmt.Sprintf("from %s/%s:", enter, leave)
		steps := 2
		if c.Tier == "thorough" {
			steps = 3
		}
		for k := 0; k < steps; k++ {
			before := get()
			beforeR := s.render(before)
			if k > 0 && s.Bool(fmt.Sprint("reset", k)) {
				text += " reset"
				r := s.M(m, enterPkg, "Model", "ResetTotals")
				if s.Code(r[0]) != "OK" {
					s.Stop("%s: returns %s", text, s.Code(r[0]))
				}
				enter, leave = "0", "0"
			} else {
				dir := s.Pick(fmt.Sprint("direction", k), 3)
				e, l := vals[s.Pick(fmt.Sprint("enter", k), len(vals))], vals[s.Pick(fmt.Sprint("leave", k), len(vals))]
				f := map[string]any{"direction": dir}
				if e != "nil" {
					f["enter_total"] = num(e)
				}
				if l != "nil" {
					f["leave_total"] = num(l)
				}
				ev := s.build(evT, f)
				text += fmt.Sprintf(" event(%d, %s/%s)", dir, e, l)
				r := s.M(m, enterPkg, "Model", "CreateEnterLeaveEvent", ev)
				if s.Code(r[0]) != "OK" {
					s.Stop("%s: returns %s", text, s.Code(r[0]))
				}
				adjust := func(cur, val string, inc bool) string {
					if val != "nil" && num(val) != num(cur) {
						return val
					}
					n := num(cur)
					if inc {
						n++
					}
					return fmt.Sprint(n)
				}
				enter, leave = adjust(enter, e, dir == 1), adjust(leave, l, dir == 2)
				if got := s.int(s.Field(get(), "Direction")); got != int64(dir) {
					s.Fail("%s: direction is %d", text, got)
				}
			}
			v := get()
			if ge, gl := s.optInt(s.Field(v, "EnterTotal")), s.optInt(s.Field(v, "LeaveTotal")); ge != enter || gl != leave {
				s.Stop("%s: totals are %s/%s instead of %s/%s", text, ge, gl, enter, leave)
			}
			if s.render(before) != beforeR {
				s.Fail("%s: changes the event returned before", text)
			}
		}
	})
	c.Explore("enter-leave", "seed", c.Method(enterPkg, "Model", "PullEnterLeaveEvents").Pos(), c20Cfg(), func(s *Scn) {
		init := s.build(evT, map[string]any{"direction": 1, "occupant": map[string]any{"name": "o"}, "enter_total": 4, "leave_total": 2})
		m := s.F(enterPkg, "NewModel", s.F(resPkg, "WithClock", s.clock()), s.F(enterPkg, "WithInitialEnterLeaveEvent", init))
		ctx := s.Ctx("env")
		ch := s.M(m, enterPkg, "Model", "PullEnterLeaveEvents", ctx)[0]
		rd := s.Read(ch)
		s.P.Settle()
		if got := s.render(s.M(m, enterPkg, "Model", "GetEnterLeaveEvent")[0]); got != s.render(init) {
			s.Fail("subscribing changes the event to %s", got)
		}
		f := map[string]any{"direction": 2, "occupant": map[string]any{"name": "p"}}
		s.M(m, enterPkg, "Model", "CreateEnterLeaveEvent", s.build(evT, f))
		s.P.Settle()
		var got []string
		for _, ev := range rd.Events {
			got = append(got, s.render(s.member(ev, "Value")))
		}
		want := []string{
			s.render(s.build(evT, map[string]any{"enter_total": 4, "leave_total": 2})),
			s.render(s.build(evT, map[string]any{"direction": 2, "occupant": map[string]any{"name": "p"}, "enter_total": 4, "leave_total": 3})),
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			s.Fail("a subscriber sees %s instead of %s", got, want)
		}
		if r := s.render(s.M(m, enterPkg, "Model", "GetEnterLeaveEvent")[0]); r != want[1] {
			s.Fail("the event is %s instead of %s", r, want[1])
		}
		s.P.CancelCtx(ctx)
		s.P.Settle()
	})
}

// --- meter

func c20Meter(c *Ctx) {
	fn := c.Method(meterPkg, "Model", "RecordReading")
	mT := c.ExtType(traitsPkg, "MeterReading")
	c.Explore("meter", "readings and resets", fn.Pos(), c20Cfg(), func(s *Scn) {
		opts := []Val{s.F(resPkg, "WithClock", s.clock())}
		kind := s.Pick("initial", 5)
		f := map[string]any{}
		usage, start, end := 0.0, int64(-2), int64(-2) // -2: now
		switch kind {
		case 1:
			f["usage"], usage = 12.5, 12.5
		case 2:
			f["usage"], usage = 12.5, 12.5
			f["start_time"], start = map[string]any{"seconds": 50}, 50
		case 3:
			f["end_time"], end = map[string]any{"seconds": 60}, 60
		case 4:
			f["usage"], usage = 3.0, 3.0
			f["start_time"], start = map[string]any{"seconds": 50}, 50
			f["end_time"], end = map[string]any{"seconds": 60}, 60
		}
		var given Val
		givenR := ""
		if kind > 0 {
			given = s.build(mT, f)
			givenR = s.render(given)
			opts = append(opts, s.F(resPkg, "WithInitialValue", given))
		}
		lo := s.clockReadings()
		m := s.F(meterPkg, "NewModel", opts...)
		text := fmt.Sprintf("initially %v:", givenR)
		get := func() Val {
			r := s.M(m, meterPkg, "Model", "GetMeterReading")
			if s.Code(r[1]) != "OK" {
				s.Stop("getting the reading: %s", s.Code(r[1]))
			}
			return r[0]
		}
		check := func(v Val) {
			if s.P.IsNil(v) {
				s.Stop("%s: no reading", text)
			}
			hi := s.clockReadings()
			ok := func(got int64, want *int64) bool {
				if *want == -2 {
					if got < modelEpoch+lo || got >= modelEpoch+hi {
						return false
					}
					*want = got
				}
				return got == *want
			}
			u, st, e := s.float(s.Field(v, "Usage")), s.seconds(s.Field(v, "StartTime")), s.seconds(s.Field(v, "EndTime"))
			if u != usage || !ok(st, &start) || !ok(e, &end) {
				s.Stop("%s: the reading is usage %v from %d to %d instead of %v from %d to %d (now is %d..%d)", text, u, st, e, usage, start, end, modelEpoch+lo, modelEpoch+hi)
			}
		}
		check(get())
		if start == end && kind == 0 && start < modelEpoch {
			s.Fail("%s: times aren't recorded", text)
		}
		steps := 3
		for k := 0; k < steps; k++ {
			before := get()
			beforeR := s.render(before)
			lo = s.clockReadings()
			var r []Val
			switch op := s.Pick(fmt.Sprint("op", k), 4); op {
			case 0, 1:
				u := []float64{0, 99.5}[op]
				text += fmt.Sprintf(" record %v", u)
				r = s.M(m, meterPkg, "Model", "RecordReading", absint.MkFloat(types.Typ[types.Float32], u))
				usage, end = u, -2
			case 2:
				text += " reset"
				r = s.M(m, meterPkg, "Model", "Reset")
				usage, start, end = 0, -2, -2
			case 3:
				text += " update"
				r = s.M(m, meterPkg, "Model", "UpdateMeterReading", s.build(mT, map[string]any{"usage": 7.0}), s.F(resPkg, "WithUpdatePaths", absint.MkString("usage")))
				usage = 7
			}
			if s.Code(r[1]) != "OK" {
				s.Stop("%s: returns %s", text, s.Code(r[1]))
			}
			check(r[0])
			check(get())
			if s.render(before) != beforeR {
				s.Fail("%s: changes a reading returned before", text)
			}
		}
		if given != nil && s.render(given) != givenR {
			s.Fail("%s: changes the initial value", text)
		}
	})
}

// --- publications

type pub struct {
	body, media string
	aud         bool
	audName     string
	receipt     int64
	reason      string
	receiptT    int64
	version     string
	publishT    int64
}

func (p pub) content(id string) string {
	return fmt.Sprintf("%s|%s|%s|%s", id, p.body, p.media, p.audName)
}

type pubOp struct {
	kind     string // create update ack delete
	id       string
	p        pub
	mask     []string
	version  string // "", "current", "wrong", "stale"
	allow    bool
	receipt  int64
	reason   string
	viaModel bool // no computed properties
}

func (o pubOp) String() string {
	r := o.kind
	if o.viaModel {
		r = "model." + r
	}
	a := []string{o.id}
	if o.kind == "create" || o.kind == "update" {
		a = append(a, o.p.body, o.p.media)
		if o.p.aud {
			a = append(a, "audience "+o.p.audName)
		}
	}
	if o.mask != nil {
		a = append(a, fmt.Sprint("mask ", o.mask))
	}
	if o.version != "" {
		a = append(a, o.version+" version")
	}
	if o.receipt > 0 {
		a = append(a, fmt.Sprint("receipt ", o.receipt, o.reason))
	}
	if o.allow {
		a = append(a, "allow")
	}
	return r + "(" + strings.Join(a, ", ") + ")"
}

type pubWorld struct {
	s        *Scn
	m, srv   Val
	st       map[string]*pub
	versions map[string]string // content to version
	stale    string
	noSignal int64
	text     string
}

func (w *pubWorld) build(id string, p pub) Val {
	s := w.s
	f := map[string]any{"id": id, "body": mkBytes(s.P, []byte(p.body)), "media_type": p.media, "version": p.version}
	if p.publishT > 0 {
		f["publish_time"] = map[string]any{"seconds": int(p.publishT)}
	}
	if p.aud {
		a := map[string]any{"name": p.audName, "receipt": int(p.receipt), "receipt_rejected_reason": p.reason}
		if p.receiptT > 0 {
			a["receipt_time"] = map[string]any{"seconds": int(p.receiptT)}
		}
		f["audience"] = a
	}
	return s.build(s.C.ExtType(traitsPkg, "Publication"), f)
}

func (w *pubWorld) read(v Val) pub {
	s := w.s
	b, ok := knownBytes(s.P, s.Field(v, "Body"))
	if !ok {
		s.P.Stuck("unknown body")
	}
	p := pub{body: string(b), media: s.str(s.Field(v, "MediaType")), version: s.str(s.Field(v, "Version")), publishT: s.seconds(s.Field(v, "PublishTime")), receiptT: -1}
	if a := s.Field(v, "Audience"); !s.P.IsNil(a) {
		p.aud, p.audName = true, s.str(s.Field(a, "Name"))
		p.receipt, p.reason, p.receiptT = s.int(s.Field(a, "Receipt")), s.str(s.Field(a, "ReceiptRejectedReason")), s.seconds(s.Field(a, "ReceiptTime"))
	}
	return p
}

// check compares a publication with the expected one, times of -2 are now.
func (w *pubWorld) check(what, id string, v Val, want *pub, lo int64) {
	s := w.s
	if s.P.IsNil(v) {
		s.Stop("%s: no %s publication", w.text, what)
	}
	got := w.read(v)
	if s.str(s.Field(v, "Id")) != id {
		s.Fail("%s: id of the %s publication is %s", w.text, what, s.str(s.Field(v, "Id")))
	}
	hi := s.clockReadings()
	now := func(want *int64, got int64) {
		if *want == -2 && got >= modelEpoch+lo && got < modelEpoch+hi {
			*want = got
		}
	}
	now(&want.publishT, got.publishT)
	now(&want.receiptT, got.receiptT)
	if want.version == "minted" {
		ct := want.content(id)
		if ver, ok := w.versions[ct]; ok && ver != got.version {
			s.Fail("%s: the version changes from %s to %s for the same content", w.text, ver, got.version)
		}
		for other, ver := range w.versions {
			if other != ct && ver == got.version {
				s.Fail("%s: the version is %s for both %s and %s", w.text, ver, ct, other)
			}
		}
		if got.version == "" || got.version == "given" {
			s.Fail("%s: the version is %q", w.text, got.version)
		}
		w.versions[ct] = got.version
		want.version = got.version
	}
	if got != *want {
		s.Stop("%s: the %s publication is %+v instead of %+v", w.text, what, got, *want)
	}
}

func (w *pubWorld) get(id string) Val {
	s := w.s
	r := s.M(w.m, pubPkg, "Model", "GetPublication", absint.MkString(id))
	if !s.P.Truth(r[1]) {
		return nil
	}
	return r[0]
}

func (w *pubWorld) step(o pubOp) {
	s := w.s
	w.text = strings.TrimSpace(w.text + " " + o.String())
	old := w.st[o.id]
	before := w.get(o.id)
	beforeR := ""
	if before != nil {
		beforeR = s.render(before)
	}
	version := ""
	switch o.version {
	case "current":
		if old == nil {
			version = "something"
		} else {
			version = old.version
		}
	case "wrong":
		version = "wrong"
	case "stale":
		version = w.stale
		if version == "" || old != nil && version == old.version {
			return
		}
	}
	lo := s.clockReadings()
	var msg, err Val
	call := func(method string, req map[string]any) {
		req["name"] = "dev"
		msg, err = s.rpcOn(w.srv, pubPkg, "ModelServer", method, req)
	}
	given := w.build(o.id, o.p)
	switch {
	case o.kind == "create" && o.viaModel:
		r := s.M(w.m, pubPkg, "Model", "CreatePublication", given)
		msg, err = r[0], r[1]
	case o.kind == "create":
		call("CreatePublication", map[string]any{"publication": given})
	case o.kind == "update" && o.viaModel:
		r := s.M(w.m, pubPkg, "Model", "UpdatePublication", absint.MkString(o.id), given)
		msg, err = r[0], r[1]
	case o.kind == "update":
		req := map[string]any{"publication": given, "version": version}
		if o.mask != nil {
			req["update_mask"] = s.pm().mask(o.mask...)
		}
		call("UpdatePublication", req)
	case o.kind == "ack":
		call("AcknowledgePublication", map[string]any{"id": o.id, "version": version, "receipt": int(o.receipt), "receipt_rejected_reason": o.reason, "allow_acknowledged": o.allow})
	case o.kind == "delete":
		call("DeletePublication", map[string]any{"id": o.id, "version": version, "allow_missing": o.allow})
	}
	code := s.Code(err)
	expect := func(want string) bool {
		if code != want {
			s.Stop("%s: returns %s instead of %s", w.text, code, want)
		}
		return want == "OK"
	}
	unchanged := func() {
		now := w.get(o.id)
		if (now == nil) != (before == nil) || now != nil && s.render(now) != beforeR {
			s.Fail("%s: fails but changes the publication", w.text)
		}
	}
	if before != nil {
		defer func() {
			if s.render(before) != beforeR {
				s.Fail("%s: changes a publication returned before", w.text)
			}
		}()
	}
	next := pub{receiptT: -1, publishT: -1}
	id := o.id
	switch o.kind {
	case "create":
		if old != nil {
			expect("AlreadyExists")
			unchanged()
			return
		}
		expect("OK")
		next = o.p
		if next.publishT == 0 {
			next.publishT = -1
		}
		if !next.aud || next.receiptT == 0 {
			next.receiptT = -1
		}
		if id == "" {
			if s.P.IsNil(msg) {
				s.Stop("%s: returns nothing", w.text)
			}
			id = s.str(s.Field(msg, "Id"))
			if w.st[id] != nil || id == "" {
				s.Stop("%s: id is %q", w.text, id)
			}
		}
		w.computed(&next, !o.viaModel)
	case "update":
		switch {
		case o.id == "" && !o.viaModel:
			expect("InvalidArgument")
			return
		case old == nil:
			expect("NotFound")
			unchanged()
			return
		case version != "" && version != old.version:
			expect("FailedPrecondition")
			unchanged()
			return
		}
		expect("OK")
		next = *old
		if o.mask == nil {
			next = o.p
			if next.publishT == 0 {
				next.publishT = -1
			}
			if !next.aud || next.receiptT == 0 {
				next.receiptT = -1
			}
		}
		for _, p := range o.mask {
			switch p {
			case "body":
				next.body = o.p.body
			case "media_type":
				next.media = o.p.media
			case "audience.name":
				next.aud, next.audName = true, o.p.audName
			}
		}
		w.stale = old.version
		w.computed(&next, !o.viaModel)
	case "ack":
		switch {
		case o.id == "" || version == "":
			expect("InvalidArgument")
			unchanged()
			return
		case old == nil:
			expect("NotFound")
			unchanged()
			return
		case version != old.version:
			expect("Aborted")
			unchanged()
			return
		case old.receipt == w.noSignal+1 || old.receipt == w.noSignal+2:
			if !o.allow {
				expect("FailedPrecondition")
			} else {
				expect("OK")
				if s.P.IsNil(msg) || s.render(msg) != beforeR {
					s.Fail("%s: returns %s instead of the publication", w.text, s.render(msg))
				}
			}
			unchanged()
			return
		}
		expect("OK")
		next = *old
		next.aud, next.receipt, next.reason, next.receiptT = true, o.receipt, o.reason, -2
	case "delete":
		switch {
		case o.id == "":
			expect("InvalidArgument")
			return
		case old == nil:
			if o.allow {
				expect("OK")
			} else {
				expect("NotFound")
			}
			return
		case version != "" && version != old.version:
			expect("FailedPrecondition")
			unchanged()
			return
		}
		expect("OK")
		delete(w.st, o.id)
		if w.get(o.id) != nil {
			s.Fail("%s: the publication isn't deleted", w.text)
		}
		return
	}
	w.check("returned", id, msg, &next, lo)
	if v := w.get(id); v == nil {
		s.Stop("%s: there's no publication", w.text)
	} else {
		w.check("stored", id, v, &next, lo)
	}
	w.st[id] = &next
}

func (w *pubWorld) computed(p *pub, yes bool) {
	if !yes {
		return
	}
	p.version, p.publishT = "minted", -2
	if p.aud {
		p.receipt, p.reason, p.receiptT = w.noSignal, "", -1
	}
}

func c20Publication(c *Ctx) {
	fn := c.Method(pubPkg, "ModelServer", "AcknowledgePublication")
	bogus := pub{body: "B1", media: "m/1", aud: true, audName: "aud1", version: "given", publishT: 5, receipt: 2, reason: "why", receiptT: 6}
	plain := pub{body: "B2", media: "m/2"}
	aud2 := pub{body: "B1", media: "m/1", aud: true, audName: "aud2"}
	var ops []pubOp
	for _, id := range []string{"a", "q"} {
		ops = append(ops, pubOp{kind: "create", id: id, p: bogus}, pubOp{kind: "create", id: id, p: plain})
		for _, v := range []string{"", "current", "wrong", "stale"} {
			ops = append(ops, pubOp{kind: "update", id: id, p: plain, version: v}, pubOp{kind: "update", id: id, p: bogus, version: v})
			ops = append(ops, pubOp{kind: "delete", id: id, version: v}, pubOp{kind: "delete", id: id, version: v, allow: true})
			for _, allow := range []bool{false, true} {
				ops = append(ops, pubOp{kind: "ack", id: id, version: v, receipt: 2, allow: allow}, pubOp{kind: "ack", id: id, version: v, receipt: 3, reason: "no thanks", allow: allow})
			}
		}
		ops = append(ops, pubOp{kind: "update", id: id, p: aud2}, pubOp{kind: "ack", id: id, version: "current", receipt: 1},
			pubOp{kind: "update", id: id, p: plain, mask: []string{"body"}}, pubOp{kind: "update", id: id, p: plain, mask: []string{"media_type"}},
			pubOp{kind: "update", id: id, p: aud2, mask: []string{"audience.name"}, version: "current"}, pubOp{kind: "update", id: id, p: plain, mask: []string{"body", "media_type"}},
			pubOp{kind: "update", id: id, p: bogus, viaModel: true}, pubOp{kind: "create", id: id, p: bogus, viaModel: true})
	}
	for _, k := range []string{"create", "update", "ack", "delete"} {
		ops = append(ops, pubOp{kind: k, p: bogus, version: "current", receipt: 2})
	}
	ops = append(ops, pubOp{kind: "create", p: plain, viaModel: true})
	few := []pubOp{
		{kind: "create", id: "a", p: bogus}, {kind: "create", id: "a", p: plain},
		{kind: "update", id: "a", p: bogus}, {kind: "update", id: "a", p: plain, mask: []string{"body"}}, {kind: "update", id: "a", p: aud2, version: "current"},
		{kind: "ack", id: "a", version: "current", receipt: 2}, {kind: "ack", id: "a", version: "current", receipt: 3, reason: "no"},
		{kind: "ack", id: "a", version: "current", receipt: 1}, {kind: "delete", id: "a"},
	}
	c.Count("publication operations", len(ops))
	n := 2
	if c.Tier == "thorough" {
		n = 3
	}
	setups := []string{"nothing", "created", "created with audience", "created with audience2"}
	for _, su := range setups {
		su := su
		c.Explore("publication", "from "+su, fn.Pos(), c20Cfg(), func(s *Scn) {
			w := &pubWorld{s: s, st: map[string]*pub{}, versions: map[string]string{}, noSignal: s.enum(traitsPkg, "Publication_Audience_NO_SIGNAL")}
			opts := []Val{s.F(resPkg, "WithClock", s.clock())}
			keep := bogus
			opts = append(opts, s.F(pubPkg, "WithInitialPublication", w.build("z", keep)))
			w.m = s.F(pubPkg, "NewModel", opts...)
			w.srv = s.F(pubPkg, "NewModelServer", w.m)
			zR := s.render(w.get("z"))
			switch su {
			case "created":
				w.step(pubOp{kind: "create", id: "a", p: plain})
			case "created with audience":
				w.step(pubOp{kind: "create", id: "a", p: bogus})
			case "created with audience2":
				w.step(pubOp{kind: "create", id: "a", p: aud2})
				w.step(pubOp{kind: "create", id: "b", p: aud2})
			}
			for k := 0; k < n; k++ {
				if k < n-1 {
					w.step(few[s.Pick(fmt.Sprint("op", k), len(few))])
				} else {
					w.step(ops[s.Pick(fmt.Sprint("op", k), len(ops))])
				}
			}
			if s.render(w.get("z")) != zR {
				s.Fail("%s: changes another publication", w.text)
			}
		})
	}
}

// --- configuration

// sample makes a message with its scalar fields set to distinct values.
func (s *Scn) sample(t types.Type, n int, depth int) Val {
	return s.build(t, s.sampleFields(t, n, depth))
}

func (s *Scn) sampleFields(t types.Type, n int, depth int) map[string]any {
	f := map[string]any{}
	for i, fl := range tmFields(t) {
		switch u := fl.t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				f[fl.name] = fmt.Sprintf("%s%d", fl.name, n)
			case u.Info()&types.IsBoolean != 0:
				f[fl.name] = true
			case u.Info()&types.IsInteger != 0:
				if _, enum := fl.t.(*types.Named); enum {
					f[fl.name] = n
				} else {
					f[fl.name] = 10*n + i
				}
			case u.Info()&types.IsFloat != 0:
				f[fl.name] = float64(10*n+i) + 0.5
			}
		case *types.Pointer:
			if _, isStruct := u.Elem().Underlying().(*types.Struct); isStruct && depth > 0 && fl.wrapper == nil {
				f[fl.name] = s.sample(u.Elem(), n, depth-1)
			}
		}
	}
	return f
}

// contents renders what a model's resources hold.
func (s *Scn) holdings(m Val) map[string][]string {
	names, vals, kinds := s.resources(m)
	r := map[string][]string{}
	for _, n := range names {
		if kinds[n] == "Value" {
			v := s.M(vals[n], resPkg, "Value", "Get")[0]
			r[n] = []string{s.render(v)}
		} else {
			r[n] = []string{}
			for _, v := range s.list(s.M(vals[n], resPkg, "Collection", "List")[0]) {
				r[n] = append(r[n], s.render(v))
			}
		}
	}
	return r
}

func c20Initial(c *Ctx) {
	found := 0
	for _, m := range c.models() {
		m := m
		sp := c.Pkg(m.pkg)
		optT := load.Module + "/" + resPkg + ".Option"
		sig := m.ctor.Signature
		if sig.Variadic() && sig.Params().Len() == 1 && types.TypeString(sig.Params().At(0).Type().(*types.Slice).Elem(), nil) == optT {
			var names []string
			for n := range sp.Members {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				f := sp.Func(n)
				if f == nil || !strings.HasPrefix(n, "WithInitial") || f.Signature.Params().Len() != 1 {
					continue
				}
				pt := f.Signature.Params().At(0).Type()
				many := f.Signature.Variadic()
				if many {
					pt = pt.(*types.Slice).Elem()
				}
				if !isMsgPtr(pt) {
					continue
				}
				found++
				c.Explore("initial", m.String()+" "+n, f.Pos(), c20Cfg(), func(s *Scn) {
					base := s.holdings(s.Call(m.ctor, s.variadic(m.ctor, []Val{s.F(resPkg, "WithClock", s.clock())})...)[0])
					k := 1
					if many {
						k = 3
					}
					var args []Val
					var want []string
					for i := 0; i < k; i++ {
						v := s.sample(pointee(pt), i+1, 1)
						args = append(args, v)
						want = append(want, s.render(v))
					}
					before, after := s.Bool("general option before"), s.Bool("general option after")
					var opts []Val
					if before {
						opts = append(opts, s.F(resPkg, "WithClock", s.clock()))
					}
					if many && s.Bool("separately") && n != "WithInitialPositions" {
						opts = append(opts, s.F(m.pkg, n, args[:1]...), s.F(m.pkg, n, args[1:]...))
					} else {
						opts = append(opts, s.F(m.pkg, n, args...))
					}
					if after {
						opts = append(opts, s.F(resPkg, "WithClock", s.clock()))
					}
					mv := s.Call(m.ctor, s.variadic(m.ctor, opts)...)[0]
					got := s.holdings(mv)
					changed := 0
					for _, r := range sortedKeys(got) {
						if fmt.Sprint(got[r]) == fmt.Sprint(base[r]) {
							continue
						}
						changed++
						if fmt.Sprint(minusList(got[r], base[r])) != fmt.Sprint(want) {
							s.Fail("%s.%s initially has %v instead of %v", m, r, got[r], want)
						}
					}
					if !s.readable(m, mv, pt, want) {
						s.Fail("%s: no method of %s returns %v", n, m, want)
					}
					if changed != 1 {
						s.Fail("%s affects %d resources of %s: %v", n, changed, m, got)
					}
				})
			}
			continue
		}
		// the configuration is a parameter
		for i := 0; i < sig.Params().Len(); i++ {
			i := i
			pt := sig.Params().At(i).Type()
			switch {
			case isMsgPtr(pt) && c.isResourceMsg(m, pt):
				found++
				c.Explore("initial", m.String()+" constructor", m.ctor.Pos(), c20Cfg(), func(s *Scn) {
					v := s.sample(pointee(pt), 2, 1)
					args := make([]Val, sig.Params().Len())
					for j := range args {
						args[j] = s.zeroArg(m, sig.Params().At(j).Type(), j)
					}
					args[i] = v
					mv := s.Call(m.ctor, args...)[0]
					s.oneHolds(mv, s.render(v), m)
				})
			}
		}
	}
	c.Count("initial value options", found)
	if found < 15 {
		c.Undecided("initial", "enumeration", 0, "only %d options with initial values found", found)
	}
	// press
	pf := c.Fn("pkg/trait/presspb", "NewModel")
	c.Explore("initial", "presspb constructor", pf.Pos(), c20Cfg(), func(s *Scn) {
		st := s.Pick("state", 3)
		m := s.Call(pf, absint.Const{T: pf.Signature.Params().At(0).Type(), V: absint.MkInt(int64(st)).V})[0]
		v := s.M(m, "pkg/trait/presspb", "Model", "GetPressedState")[0]
		if got := s.int(s.Field(v, "State")); got != int64(st) {
			s.Fail("the initial state is %d instead of %d", got, st)
		}
	})
	// presets
	lf := c.Fn("pkg/trait/lightpb", "WithPreset")
	c.Explore("initial", "lightpb presets", lf.Pos(), c20Cfg(), func(s *Scn) {
		opts := []Val{s.F(resPkg, "WithClock", s.clock())}
		var want []string
		levels := []float64{10, 0, 75}
		for i, l := range levels {
			p := s.build(c.ExtType(traitsPkg, "LightPreset"), map[string]any{"name": fmt.Sprint("p", i), "title": fmt.Sprint("Preset ", i)})
			want = append(want, s.render(p))
			opts = append(opts, s.F("pkg/trait/lightpb", "WithPreset", absint.MkFloat(types.Typ[types.Float32], l), p))
		}
		m := s.F("pkg/trait/lightpb", "NewModel", opts...)
		var got []string
		for _, p := range s.list(s.M(m, "pkg/trait/lightpb", "Model", "ListPresets")[0]) {
			got = append(got, s.render(p))
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			s.Fail("presets are %v instead of %v", got, want)
		}
		// selecting one sets the level, whatever mask is used
		k := s.Pick("preset", len(levels)+1)
		req := s.build(c.ExtType(traitsPkg, "Brightness"), map[string]any{"level_percent": 33.0, "preset": map[string]any{"name": fmt.Sprint("p", k)}})
		reqR := s.render(req)
		args := []Val{req}
		if s.Bool("mask") {
			args = append(args, s.F(resPkg, "WithUpdateMask", s.pm().mask("preset")))
			if k == len(levels) {
				return
			}
		}
		r := s.M(m, "pkg/trait/lightpb", "Model", "UpdateBrightness", args...)
		if k == len(levels) {
			return // unknown, not specified
		}
		if s.Code(r[1]) != "OK" {
			s.Stop("selecting preset %d returns %s", k, s.Code(r[1]))
		}
		for _, v := range []Val{r[0], s.M(m, "pkg/trait/lightpb", "Model", "GetBrightness")[0]} {
			if l := s.float(s.Field(v, "LevelPercent")); l != levels[k] || s.render(s.Field(v, "Preset")) != want[k] {
				s.Fail("selecting preset %d results in %s", k, s.render(v))
			}
		}
		if s.render(req) != reqR {
			s.Fail("selecting a preset changes the request")
		}
	})
	of := c.Fn("pkg/trait/openclosepb", "WithPreset")
	c.Explore("initial", "openclosepb presets", of.Pos(), c20Cfg(), func(s *Scn) {
		posT := c.ExtType(traitsPkg, "OpenClosePosition")
		prT := c.ExtType(traitsPkg, "OpenClosePositions_Preset")
		pos := func(dir int, pct float64) Val {
			return s.build(posT, map[string]any{"direction": dir, "open_percent": pct})
		}
		opts := []Val{s.F(resPkg, "WithClock", s.clock()),
			s.F("pkg/trait/openclosepb", "WithPreset", s.build(prT, map[string]any{"name": "open", "title": "Open"}), pos(1, 100), pos(2, 100)),
			s.F("pkg/trait/openclosepb", "WithPreset", s.build(prT, map[string]any{"name": "closed", "title": "Closed"}), pos(2, 0), pos(1, 0)),
			s.F("pkg/trait/openclosepb", "WithInitialPositions", pos(1, 50), pos(2, 20))}
		m := s.F("pkg/trait/openclosepb", "NewModel", opts...)
		state := func() string {
			r := s.M(m, "pkg/trait/openclosepb", "Model", "GetPositions")
			if s.Code(r[1]) != "OK" {
				s.Stop("getting positions returns %s", s.Code(r[1]))
			}
			t := ""
			for _, p := range s.list(s.Field(r[0], "States")) {
				t += fmt.Sprintf("%d:%v ", s.int(s.Field(p, "Direction")), s.float(s.Field(p, "OpenPercent")))
			}
			if p := s.Field(r[0], "Preset"); !s.P.IsNil(p) {
				t += s.str(s.Field(p, "Name")) + "/" + s.str(s.Field(p, "Title"))
			}
			return strings.TrimSpace(t)
		}
		if got := state(); got != "1:50 2:20" {
			s.Fail("initial positions are %s", got)
		}
		set := func(f map[string]any) string {
			r := s.M(m, "pkg/trait/openclosepb", "Model", "UpdatePositions", s.build(c.ExtType(traitsPkg, "OpenClosePositions"), f))
			return s.Code(r[1])
		}
		want := map[string]string{"open": "1:100 2:100 open/Open", "closed": "1:0 2:0 closed/Closed"}
		text := ""
		for k := 0; k < 2; k++ {
			n := []string{"open", "closed", "nosuch"}[s.Pick(fmt.Sprint("preset", k), 3)]
			before := state()
			text += " " + n
			code := set(map[string]any{"preset": map[string]any{"name": n}})
			if n == "nosuch" {
				if code != "InvalidArgument" || state() != before {
					s.Fail("preset%s: returns %s, positions are %s", text, code, state())
				}
				continue
			}
			if got := state(); code != "OK" || got != want[n] {
				s.Fail("preset%s: returns %s, positions are %s instead of %s", text, code, got, want[n])
			}
		}
	})
}

// isResourceMsg is whether a model plausibly stores messages of type t: configuration other than state is used by
// methods instead.
func (c *Ctx) isResourceMsg(m *model, t types.Type) bool {
	for _, f := range c.methods(m.t) {
		if isPull(f) {
			continue
		}
		res := f.Signature.Results()
		if res.Len() > 0 && types.Identical(res.At(0).Type(), t) && strings.HasPrefix(f.Name(), "Update") {
			return true
		}
	}
	return false
}

func (s *Scn) oneHolds(mv Val, want string, m *model) {
	got := s.holdings(mv)
	for _, r := range got {
		if len(r) == 1 && r[0] == want {
			return
		}
	}
	s.Fail("%s initially has %v instead of %s", m, got, want)
}

// minusList removes elements.
func minusList(xs, ys []string) []string {
	m := map[string]int{}
	for _, y := range ys {
		m[y]++
	}
	r := []string{}
	for _, x := range xs {
		if m[x] > 0 {
			m[x]--
			continue
		}
		r = append(r, x)
	}
	return r
}

// member reads a field of a struct that's a value or pointer.
func (s *Scn) member(v Val, name string) Val {
	sv, ok := s.P.Resolve(v).(*absint.StructV)
	if !ok {
		return s.Field(v, name)
	}
	st := sv.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s.P.Resolve(sv.Field(i).Load())
		}
	}
	s.P.Stuck("no field %s", name)
	return nil
}

// readable is whether one of a model's getters returns the messages. True if there aren't any getters for the type.
func (s *Scn) readable(m *model, mv Val, msgT types.Type, want []string) bool {
	any := false
	for _, f := range s.C.methods(m.t) {
		sig := f.Signature
		n := sig.Params().Len()
		if sig.Variadic() {
			n--
		}
		if n != 0 || sig.Results().Len() == 0 || sig.Results().Len() > 2 || strings.HasPrefix(f.Name(), "Reset") {
			continue
		}
		rt := sig.Results().At(0).Type()
		if types.Identical(rt, msgT) && len(want) == 1 {
			any = true
			if r := s.Call(f, s.variadic(f, []Val{mv})...); s.render(r[0]) == want[0] {
				return true
			}
			continue
		}
		if sl, ok := rt.(*types.Slice); ok && types.Identical(sl.Elem(), msgT) {
			any = true
			has := map[string]bool{}
			for _, v := range s.list(s.Call(f, s.variadic(f, []Val{mv})...)[0]) {
				has[s.render(v)] = true
			}
			all := true
			for _, w := range want {
				all = all && has[w]
			}
			if all {
				return true
			}
		}
	}
	return !any
}
