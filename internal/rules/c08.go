package rules

import (
	"fmt"
	"go/types"
	"strings"

	"scverify/internal/absint"
)

func init() {
	register("C08", "filtered-list", "Listing with a predicate returns the items that satisfy it", c08List)
	register("C08", "filtered-edit-script", "A filtered subscription is the subscription of the filtered collection", c08Script)
	register("C08", "filtered-converges", "The changes of a filtered subscription fold to the filtered list", c08Converges)
	register("C08", "booking-period", "ListBookings and PullBookings are filtered by the requested period", c08Booking)
}

// included decides the predicate, nothing is known about it but that it's a function of the item.
func (s *Scn) included(id, content string) bool {
	return s.P.ChooseBool("in:include(" + id + ", " + content + ")")
}

// include is the predicate as an option.
func (s *Scn) include() Val {
	return s.F(resPkg, "WithInclude", s.Native("include", func(args []Val) Val {
		return absint.MkBool(s.included(idKey(s.P.Resolve(args[0])), s.Content(args[1])))
	}))
}

// filtered are the changes of the collection that only has the included items.
func (s *Scn) filteredChanges(in []refEvent, o subOpts) []chg {
	var want []chg
	for _, e := range in {
		id := strings.Trim(e.id, `"`)
		was := e.old != "nil" && s.included(id, e.old)
		is := e.new != "nil" && s.included(id, e.new)
		w := chg{id: id, kind: "UPDATE", old: "nil", new: "nil", time: e.time}
		if was {
			w.old = o.view(e.old)
		}
		if is {
			w.new = o.view(e.new)
		}
		switch {
		case !was && !is:
			continue
		case !was:
			w.kind = "ADD"
		case !is:
			w.kind = "REMOVE"
		}
		want = append(want, w)
	}
	return want
}

// filteredState is what the collection contains, filtered.
func (r *resColl) filteredState(ids []string, o subOpts) lstate {
	st := lstate{}
	for id, c := range r.state(ids) {
		id := strings.Trim(absint.Key(r.key(strID(id))), `"`)
		if r.s.included(id, c) {
			st[id] = o.view(c)
		}
	}
	return st
}

func (r *resColl) filteredItems() []refItem {
	var out []refItem
	for _, it := range r.items {
		if r.s.included(idKey(r.s.P.Resolve(it.id)), it.content) {
			out = append(out, it)
		}
	}
	return out
}

func (r *resColl) checkFilteredList(what string, o subOpts) {
	opts := []Val{r.s.include()}
	if o.mask != nil {
		opts = append(opts, r.s.F(resPkg, "WithReadMask", o.mask))
	}
	var want []string
	for _, it := range r.filteredItems() {
		want = append(want, o.view(it.content))
	}
	got := r.list(opts...)
	if g, w := strings.Join(got, " | "), strings.Join(want, " | "); g != w {
		r.s.Fail("after %s List with a predicate returns [%s] instead of [%s]", what, g, w)
	}
}

// filteredSeeds are the changes a filtered subscription starts with.
func (r *resColl) filteredSeeds(o subOpts) []chg {
	if o.updatesOnly {
		return nil
	}
	var want []chg
	for _, it := range r.filteredItems() {
		want = append(want, chg{id: idKey(r.s.P.Resolve(it.id)), kind: "ADD", old: "nil", new: o.view(it.content), time: it.time, seed: true})
	}
	if len(want) > 0 {
		want[len(want)-1].last = true
	}
	return want
}

func c08List(c *Ctx) {
	list := c.Method(resPkg, "Collection", "List")
	for _, canon := range []bool{false, true} {
		name := "Collection.List"
		if canon {
			name += " with an id interceptor"
		}
		c.Explore("filtered-list", name, list.Pos(), c04Cfg(c), func(s *Scn) {
			r := newResColl(s, canon)
			for _, id := range []string{"b", "c", "a"}[:s.Pick("items", 4)] {
				r.write(true, strID(id), &wopts{})
			}
			o := subOpts{}
			if s.Bool("read mask") {
				o.mask = s.Mask("readMask")
			}
			r.checkFilteredList("adding", o)
			if len(r.items) > 0 && s.Bool("updated") {
				r.write(false, strID("b"), &wopts{})
				r.checkFilteredList("updating", o)
			}
			r.check("listing with a predicate")
		})
	}
}

func c08Script(c *Ctx) {
	pull := c.Method(resPkg, "Collection", "Pull")
	c.Explore("filtered-edit-script", "seeds", pull.Pos(), c04Cfg(c), func(s *Scn) {
		r := newResColl(s, false)
		for _, id := range []string{"b", "c", "a"}[:s.Pick("items", 4)] {
			r.write(true, strID(id), &wopts{})
		}
		o := subOpts{backpressure: s.Bool("backpressure"), updatesOnly: s.Bool("updates only")}
		if s.Bool("read mask") {
			o.mask = s.Mask("readMask")
		}
		rd := s.Read(r.pull(s.Ctx("ctx"), append(o.build(s), s.include())...))
		s.P.Settle()
		s.expect("the seed of a filtered subscription", rd.Events, r.filteredSeeds(o), false)
		r.check("a filtered Pull")
	})
	n := 2
	if c.Tier == "thorough" {
		n = 3
	}
	for _, canon := range []bool{false, true} {
		for _, two := range []bool{false, true} {
			if canon && two {
				continue
			}
			name := fmt.Sprintf("Collection.Pull and %d writes", n)
			ids := []string{"x"}
			if canon {
				name += " with an id interceptor"
			}
			if two {
				name += " of two items"
				ids = []string{"x", "a"}
			}
			c.Explore("filtered-edit-script", name, pull.Pos(), c04Cfg(c), func(s *Scn) {
				r := newResColl(s, canon)
				if s.Bool("initial item") {
					r.write(true, strID("x"), &wopts{})
				}
				o := subOpts{backpressure: true, updatesOnly: s.Bool("updates only")}
				if !two && s.Bool("read mask") {
					o.mask = s.Mask("readMask")
				}
				rd := s.Read(r.pull(s.Ctx("ctx"), append(o.build(s), s.include())...))
				want := r.filteredSeeds(o)
				from := len(r.events)
				for i := 0; i < n; i++ {
					if two {
						id := strID(ids[s.Pick(fmt.Sprint("id ", i), 2)])
						if s.Bool(fmt.Sprint("delete ", i)) {
							r.delete(id, &wopts{allowMissing: true})
						} else {
							r.write(false, id, &wopts{createIfAbsent: true})
						}
					} else {
						r.randomWrite(fmt.Sprint("write ", i), ids)
					}
				}
				s.P.Settle()
				s.expect("a filtered subscriber ("+o.String()+")", rd.Events, append(want, s.filteredChanges(r.events[from:], o)...), false)
				r.checkFilteredList("the writes", o)
			})
		}
	}
	pullID := c.Method(resPkg, "Collection", "PullID")
	c.Explore("filtered-edit-script", "Collection.PullID and 2 writes", pullID.Pos(), c04Cfg(c), func(s *Scn) {
		r := newResColl(s, false)
		if s.Bool("initial item") {
			r.write(true, strID("x"), &wopts{})
		}
		o := subOpts{backpressure: true, updatesOnly: s.Bool("updates only")}
		ch := s.M(r.v, resPkg, "Collection", "PullID", append([]Val{s.Ctx("ctx"), strID("x"), s.include()}, o.build(s)...)...)[0]
		rd := s.Read(ch)
		want := r.filteredSeeds(o)
		from := len(r.events)
		for i := 0; i < 2; i++ {
			if s.Bool(fmt.Sprint("delete ", i)) {
				r.delete(strID("x"), &wopts{allowMissing: true})
			} else {
				r.write(false, strID("x"), &wopts{createIfAbsent: true})
			}
		}
		s.P.Settle()
		closed := false
		for _, d := range s.filteredChanges(r.events[from:], o) {
			if closed = closed || d.kind == "REMOVE"; !closed {
				want = append(want, d)
			}
		}
		if rd.Closed != closed {
			s.Fail("a filtered single item subscription ended: %v instead of %v", rd.Closed, closed)
		}
		var got, due []string
		for _, e := range rd.Events {
			got = append(got, s.Content(s.Field(e, "Value")))
		}
		for _, w := range want {
			due = append(due, w.new)
		}
		if g, w := strings.Join(got, " | "), strings.Join(due, " | "); g != w {
			s.Fail("a filtered single item subscriber receives [%s] instead of [%s]", g, w)
		}
	})
}

func c08Converges(c *Ctx) {
	pull := c.Method(resPkg, "Collection", "Pull")
	type op struct{ kind, id string }
	for _, h := range []struct {
		name  string
		hist  [][]op
		seedX bool
	}{
		{"update", [][]op{{{"update", "x"}}}, true},
		{"update, delete", [][]op{{{"update", "x"}, {"delete", "x"}}}, true},
		{"delete, add", [][]op{{{"delete", "x"}, {"add", "x"}}}, true},
		{"add, update", [][]op{{{"add", "x"}, {"update", "x"}}}, false},
		{"update | delta", [][]op{{{"update", "x"}}, {{"delta", "x"}}}, true},
		{"delete | upsert", [][]op{{{"delete", "x"}}, {{"upsert", "x"}}}, true},
	} {
		c.Explore("filtered-converges", "Collection.Pull with writers "+h.name, pull.Pos(), checkOracle(subPoints(concCfg(c, 2))), func(s *Scn) {
			var opts []Val
			if h.seedX {
				opts = append(opts, s.F(resPkg, "WithInitialRecord", strID("x"), s.Msg("seed")))
			}
			r := newResColl(s, false, opts...)
			o := subOpts{backpressure: s.Bool("backpressure")}
			if !o.backpressure {
				o.slow = s.Bool("slow reader")
			}
			ctx := s.Ctx("ctx")
			done := 0
			var rd *Reader
			open := func() {}
			sub := func() {
				s.P.Spawn("sub", func() {
					rd, open = s.pacedReader(r.pull(ctx, append(o.build(s), s.include())...), o.slow)
				})
			}
			first := s.Bool("subscriber starts first")
			if first {
				sub()
			}
			for i, ks := range h.hist {
				var ops []*lop
				for j, k := range ks {
					ops = append(ops, r.lop(k.kind, k.id, fmt.Sprintf("w%d%d.", i, j)))
				}
				s.runOps(fmt.Sprint("w", i), ops, &done)
			}
			if !first {
				sub()
			}
			s.P.Settle()
			if done != len(h.hist) || rd == nil {
				s.Stop("a writer or the subscriber doesn't finish (%s)", o)
			}
			open()
			s.P.Settle()
			view := s.chain("a filtered subscriber ("+o.String()+")", rd.Events, o.backpressure)
			if final := r.filteredState([]string{"x", "y"}, o); view.String() != final.String() {
				s.Fail("the changes received by a filtered subscriber (%s) fold to %s, List returns %s", o, view, final)
			}
		})
	}
	c.Explore("filtered-converges", "Collection.Pull by a reader that pauses", pull.Pos(), c04Cfg(c), func(s *Scn) {
		r := newResColl(s, false)
		if s.Bool("initial item") {
			r.write(true, strID("x"), &wopts{})
		}
		o := subOpts{slow: true}
		ch := r.pull(s.Ctx("ctx"), append(o.build(s), s.include())...)
		rd := s.stepReader(ch)
		n := 3
		if c.Tier == "thorough" {
			n = 4
		}
		for i := 0; i < n; i++ {
			if s.Bool(fmt.Sprint("delete ", i)) {
				r.delete(strID("x"), &wopts{allowMissing: true})
			} else {
				r.write(false, strID("x"), &wopts{createIfAbsent: true})
			}
			s.P.Settle()
			if s.Bool(fmt.Sprint("receive ", i)) {
				rd.take()
			}
		}
		for rd.take() {
		}
		view := s.chain("a filtered subscriber that pauses", rd.Events, false)
		if final := r.filteredState([]string{"x"}, o); view.String() != final.String() {
			s.Fail("the changes received by a filtered subscriber that pauses fold to %s, List returns %s", view, final)
		}
	})
}

// stepReader receives when told to.
type stepReader struct {
	*Reader
	s       *Scn
	budget  int
	pending bool
}

func (s *Scn) stepReader(ch Val) *stepReader {
	r := &stepReader{Reader: &Reader{s: s, Ch: ch}, s: s}
	s.readers = append(s.readers, r.Reader)
	r.T = s.P.Spawn("env.reader", func() {
		for {
			s.P.WaitFor("the reader to continue", func() bool { return r.budget > 0 })
			v, ok := s.P.ChanRecv(ch)
			r.budget--
			if !ok {
				r.Closed = true
				return
			}
			r.Events = append(r.Events, v)
		}
	})
	return r
}

// take lets the reader receive once, returns whether there was anything to receive.
func (r *stepReader) take() bool {
	n := len(r.Events)
	if r.Closed {
		return false
	}
	if r.budget == 0 {
		r.budget = 1
	}
	r.s.P.Settle()
	return len(r.Events) > n
}

// c08Booking checks the server: what's listed and streamed is filtered by the intersection of periods.
func c08Booking(c *Ctx) {
	const pkg = "pkg/trait/bookingpb"
	const traits = "github.com/smart-core-os/sc-api/go/traits"
	cfg := func() *absint.Config {
		cfg := streamCfg(c04Cfg(c))
		cfg.Hooks[modPath+"/pkg/time.PeriodsIntersect"] = func(c *absint.Call) (Val, bool) {
			a, b := absint.DeepKey(c.P.Resolve(c.Args[0])), absint.DeepKey(c.P.Resolve(c.Args[1]))
			if b < a {
				a, b = b, a
			}
			return absint.MkBool(c.P.ChooseBool("in:intersect(" + a + "," + b + ")")), true
		}
		return cfg
	}
	booking := c.ExtType(traits, "Booking")
	type env struct {
		coll   *resColl
		server Val
		period Val
		mask   Val
		n      int
	}
	// write stores a booking, bypassing the server
	write := func(s *Scn, e *env, id string) string {
		e.n++
		m := s.P.NonNilSym(fmt.Sprint("booking", e.n), types.NewPointer(booking))
		ret := s.M(e.coll.v, resPkg, "Collection", "Update", strID(id), Iface(m), s.F(resPkg, "WithCreateIfAbsent"))
		if code := s.Code(ret[1]); code != "OK" {
			s.Stop("storing a booking reports %s", code)
		}
		content := s.Content(ret[0])
		e.coll.put(strID(id), content, nil)
		return content
	}
	setup := func(s *Scn, n int) *env {
		e := &env{}
		model := s.F(pkg, "NewModel", s.F(resPkg, "WithClock", s.clock()))
		e.server = s.F(pkg, "NewModelServer", model)
		e.coll = &resColl{s: s, v: s.collectionOf(model)}
		for i := 0; i < n; i++ {
			write(s, e, []string{"b", "a"}[i])
		}
		if s.Bool("period") {
			e.period = s.P.NonNilSym("period", types.NewPointer(c.ExtType("github.com/smart-core-os/sc-api/go/types/time", "Period")))
		}
		if s.Bool("read mask") {
			e.mask = s.Mask("readMask")
		}
		return e
	}
	request := func(s *Scn, e *env, more map[string]Val) Val {
		f := map[string]Val{"Name": strID("name")}
		if e.period != nil {
			f["BookingIntersects"] = e.period
		}
		if e.mask != nil {
			f["ReadMask"] = e.mask
		}
		for k, v := range more {
			f[k] = v
		}
		return s.NewMsg(c.ExtType(traits, "ListBookingsRequest"), "request", f)
	}
	included := func(s *Scn, e *env, content string) bool {
		if e.period == nil {
			return true
		}
		a, b := content+".Booked", absint.DeepKey(e.period)
		if b < a {
			a, b = b, a
		}
		return s.P.ChooseBool("in:intersect(" + a + "," + b + ")")
	}
	c.Explore("booking-period", "ListBookings", c.Method(pkg, "ModelServer", "ListBookings").Pos(), cfg(), func(s *Scn) {
		e := setup(s, 2)
		ret := s.M(e.server, pkg, "ModelServer", "ListBookings", s.Background(), request(s, e, nil))
		if code := s.Code(ret[1]); code != "OK" {
			s.Stop("ListBookings reports %s", code)
		}
		var want []string
		o := subOpts{mask: e.mask}
		for _, it := range e.coll.items {
			if included(s, e, it.content) {
				want = append(want, o.view(it.content))
			}
		}
		got := s.contents(s.Field(ret[0], "Bookings"))
		if g, w := strings.Join(got, " | "), strings.Join(want, " | "); g != w {
			s.Fail("ListBookings returns [%s] instead of [%s]", g, w)
		}
	})
	for _, hist := range [][]string{{"update"}, {"delete"}, {"add"}} {
		c.Explore("booking-period", "PullBookings and "+strings.Join(hist, ", "), c.Method(pkg, "ModelServer", "PullBookings").Pos(), cfg(), func(s *Scn) {
			n := 1
			if hist[0] == "add" {
				n = 0
			}
			e := setup(s, n)
			o := subOpts{updatesOnly: s.Bool("updates only"), mask: e.mask}
			st := s.serverStream(s.Ctx("ctx"))
			req := request(s, e, map[string]Val{"UpdatesOnly": absint.MkBool(o.updatesOnly)})
			s.P.Spawn("server", func() { s.M(e.server, pkg, "ModelServer", "PullBookings", req, st.v) })
			s.P.Settle()
			type ev struct{ kind, old, new string }
			var want []ev
			if !o.updatesOnly {
				for _, it := range e.coll.items {
					if included(s, e, it.content) {
						want = append(want, ev{"ADD", "nil", o.view(it.content)})
					}
				}
			}
			old := "nil"
			if n > 0 {
				old = e.coll.items[0].content
			}
			new := "nil"
			if hist[0] == "delete" {
				s.M(e.coll.v, resPkg, "Collection", "Delete", strID("b"))
			} else {
				new = write(s, e, "b")
			}
			s.P.Settle()
			was, is := old != "nil" && included(s, e, old), new != "nil" && included(s, e, new)
			switch {
			case was && is:
				want = append(want, ev{"UPDATE", o.view(old), o.view(new)})
			case was:
				want = append(want, ev{"REMOVE", o.view(old), "nil"})
			case is:
				want = append(want, ev{"ADD", "nil", o.view(new)})
			}
			var got []ev
			for _, m := range st.sent {
				sl, _ := s.P.SliceOf(s.Field(m, "Changes"))
				for i := sl.Lo; i < sl.Hi; i++ {
					ch := sl.Arr.Cells[i].Load()
					k := absint.Key(s.Field(ch, "Type"))
					got = append(got, ev{changeKinds[k], s.Content(s.Field(ch, "OldValue")), s.Content(s.Field(ch, "NewValue"))})
					if nm := absint.Key(s.Field(ch, "Name")); nm != `"name"` {
						s.Fail("PullBookings answers with name %s", nm)
					}
				}
			}
			if g, w := fmt.Sprint(got), fmt.Sprint(want); g != w {
				s.Fail("PullBookings sends %s instead of %s", g, w)
			}
		})
	}
}
