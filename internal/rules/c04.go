package rules

import (
	"fmt"
	"strings"

	"scverify/internal/absint"
)

func init() {
	register("C04", "value-edit-script", "A backpressured Value subscription is the seed followed by one change per successful write", c04Value)
	register("C04", "collection-edit-script", "A backpressured Collection subscription is the seed followed by one change per successful write", c04Collection)
	register("C04", "pullid-edit-script", "A backpressured single item subscription is the seed followed by one change per successful write of the item", c04PullID)
	register("C04", "racing-subscriber", "A subscription opened while a writer is active continues from its seed", c04Racing)
}

// eqComparer is an equivalence nothing is known about but that it's reflexive and that nothing is equivalent to absent.
func (s *Scn) eqComparer() Val {
	return s.F(resPkg, "WithEquivalence", Iface2(s.C.Type(resPkg, "ComparerFunc"), s.Native("equivalent", func(args []Val) Val {
		return absint.MkBool(s.equivalent(s.Content(args[0]), s.Content(args[1])))
	})))
}

// equivalent decides whether the configured equivalence holds.
func (s *Scn) equivalent(a, b string) bool {
	if a == b {
		return true
	}
	if a == "nil" || b == "nil" {
		return false
	}
	if a > b {
		a, b = b, a
	}
	return s.P.ChooseBool("in:equivalent(" + a + "," + b + ")")
}

func (s *Scn) sameTime(a, b Val) bool {
	return a != nil && b != nil && timeKey(s.P.Resolve(a)) == timeKey(s.P.Resolve(b))
}

func tkey(v Val) string {
	if v == nil {
		return "<unknown>"
	}
	return timeKey(v)
}

func c04Cfg(c *Ctx) *absint.Config { return distinct(resCfg(c)) }

func c04Value(c *Ctx) {
	pull := c.Method(resPkg, "Value", "Pull")
	n := 2
	if c.Tier == "thorough" {
		n = 3
	}
	for _, eq := range []bool{false, true} {
		name := "Value.Pull"
		if eq {
			name += " with an equivalence"
		}
		c.Explore("value-edit-script", name, pull.Pos(), c04Cfg(c), func(s *Scn) {
			var opts []Val
			if eq {
				opts = append(opts, s.eqComparer())
			}
			r := newResValue(s, false, s.Bool("initial value"), opts...)
			if s.Bool("written before") {
				r.set(&wopts{writeTime: timeOf(s, "earlier")})
			}
			o := subOpts{backpressure: true, updatesOnly: s.Bool("updates only")}
			if s.Bool("read mask") {
				o.mask = s.Mask("readMask")
			}
			rd := s.Read(r.pull(s.Ctx("ctx"), o.build(s)...))
			type ev struct {
				content    string
				time       Val
				seed, last bool
			}
			var want []ev
			held := "nil"
			if !o.updatesOnly && r.content != "nil" {
				held = o.view(r.content)
				want = append(want, ev{held, r.time, true, true})
			}
			for i := 0; i < n; i++ {
				w := &wopts{}
				switch s.Pick(fmt.Sprint("write ", i), 3) {
				case 1:
					w.writeTime = timeOf(s, fmt.Sprint("time", i))
				case 2:
					w.check = true
				}
				if r.set(w) {
					v := o.view(r.content)
					if eq && s.equivalent(held, v) {
						continue
					}
					held = v
					want = append(want, ev{v, r.time, false, false})
				}
			}
			s.P.Settle()
			if len(rd.Events) != len(want) {
				s.Fail("a subscriber (%s) receives %d changes instead of %d", o, len(rd.Events), len(want))
				return
			}
			for i, e := range rd.Events {
				w := want[i]
				if got := s.Content(s.Field(e, "Value")); got != w.content {
					s.Fail("a subscriber (%s) receives %s instead of %s", o, got, w.content)
				}
				if t := s.Field(e, "ChangeTime"); !s.sameTime(t, w.time) {
					s.Fail("the change time of a change (seed %v) is %s instead of %s", w.seed, tkey(t), tkey(w.time))
				}
				if s.P.Truth(s.Field(e, "SeedValue")) != w.seed || s.P.Truth(s.Field(e, "LastSeedValue")) != w.last {
					s.Fail("the seed flags of a change aren't %v, %v", w.seed, w.last)
				}
			}
		})
	}
}

// expect compares received changes with the ones that are due.
func (s *Scn) expect(what string, got []Val, want []chg, eq bool) {
	show := func(cs []chg) string {
		var r []string
		for _, c := range cs {
			r = append(r, c.String())
		}
		return strings.Join(r, "; ")
	}
	var gs []chg
	for _, e := range got {
		gs = append(gs, s.chg(e))
	}
	if len(gs) != len(want) {
		s.Fail("%s: receives [%s] instead of [%s]", what, show(gs), show(want))
		return
	}
	for i, g := range gs {
		w := want[i]
		if eq && w.old != "nil" && g.old != "nil" {
			// consecutive changes may chain on what was delivered or on what was stored
			g.old = w.old
		}
		if g.String() != w.String() {
			s.Fail("%s: receives [%s] instead of [%s]", what, g, w)
		}
		if w.time != nil && !s.sameTime(g.time, w.time) {
			s.Fail("%s: the change time of %s is %s instead of %s", what, g, tkey(g.time), tkey(w.time))
		}
	}
}

// seeds are the changes a subscription starts with.
func (r *resColl) seeds(o subOpts) []chg {
	var want []chg
	if o.updatesOnly {
		return nil
	}
	for _, it := range r.items {
		want = append(want, chg{id: idKey(r.s.P.Resolve(it.id)), kind: "ADD", old: "nil", new: o.view(it.content), time: it.time, seed: true})
	}
	if len(want) > 0 {
		want[len(want)-1].last = true
	}
	return want
}

// randomWrite does one of the kinds of writes.
func (r *resColl) randomWrite(name string, ids []string) {
	s := r.s
	w := &wopts{}
	id := strID(ids[0])
	if len(ids) > 1 {
		id = strID(ids[s.Pick(name+" id", len(ids))])
	}
	switch s.Pick(name, 5) {
	case 0:
		r.write(true, id, w)
	case 1:
		w.writeTime = timeOf(s, name+" time")
		r.write(false, id, w)
	case 2:
		w.createIfAbsent, w.after = true, true
		r.write(false, id, w)
	case 3:
		w.writeTime = timeOf(s, name+" time")
		r.delete(id, w)
	case 4:
		w.check = true
		w.allowMissing = true
		if s.Bool(name + " checked delete") {
			r.delete(id, w)
		} else {
			r.write(false, id, w)
		}
	}
}

func (r *resColl) due(o subOpts, from int) []chg {
	var want []chg
	for _, e := range r.events[from:] {
		id := strings.Trim(e.id, `"`)
		v := func(c string) string {
			if c == "nil" {
				return c
			}
			return o.view(c)
		}
		want = append(want, chg{id: id, kind: e.kind, old: v(e.old), new: v(e.new), time: e.time})
	}
	return want
}

func c04Collection(c *Ctx) {
	pull := c.Method(resPkg, "Collection", "Pull")
	n := 2
	if c.Tier == "thorough" {
		n = 3
	}
	c.Explore("collection-edit-script", "seeds", pull.Pos(), c04Cfg(c), func(s *Scn) {
		var opts []Val
		var items []refItem
		ids := []string{"b", "c", "a"}[:s.Pick("initial items", 4)]
		for _, id := range ids {
			m := s.Msg("initial " + id)
			opts = append(opts, s.F(resPkg, "WithInitialRecord", strID(id), m))
			items = append(items, refItem{strID(id), s.Content(m), nil})
		}
		n := len(s.nows())
		r := newResColl(s, false, opts...)
		created := s.nows()[n:]
		for _, it := range items {
			r.put(it.id, it.content, nil)
		}
		if len(created) == 1 {
			for i := range r.items {
				r.items[i].time = created[0]
			}
		}
		for i := s.Pick("more items", 3); i > 0; i-- {
			r.write(true, strID([]string{"", "bb", "aa"}[i]), &wopts{writeTime: timeOf(s, fmt.Sprint("t", i))})
		}
		if s.Bool("removed") && len(r.items) > 0 {
			r.delete(r.items[0].id, &wopts{})
		}
		o := subOpts{backpressure: s.Bool("backpressure"), updatesOnly: s.Bool("updates only")}
		if s.Bool("read mask") {
			o.mask = s.Mask("readMask")
		}
		rd := s.Read(r.pull(s.Ctx("ctx"), o.build(s)...))
		s.P.Settle()
		s.expect("the seed", rd.Events, r.seeds(o), false)
	})
	for _, canon := range []bool{false, true} {
		name := fmt.Sprintf("Collection.Pull and %d writes", n)
		if canon {
			name += " with an id interceptor"
		}
		c.Explore("collection-edit-script", name, pull.Pos(), c04Cfg(c), func(s *Scn) {
			r := newResColl(s, canon)
			if s.Bool("initial item") {
				r.write(true, strID("x"), &wopts{})
			}
			o := subOpts{backpressure: true, updatesOnly: s.Bool("updates only")}
			if s.Bool("read mask") {
				o.mask = s.Mask("readMask")
			}
			rd := s.Read(r.pull(s.Ctx("ctx"), o.build(s)...))
			want := r.seeds(o)
			from := len(r.events)
			ids := []string{"x", "a"}
			if n > 2 {
				ids = ids[:1]
			}
			for i := 0; i < n; i++ {
				r.randomWrite(fmt.Sprint("write ", i), ids)
			}
			s.P.Settle()
			s.expect("a subscriber ("+o.String()+")", rd.Events, append(want, r.due(o, from)...), false)
		})
	}
	c.Explore("collection-edit-script", "Collection.Pull and 3 writes of an item with an equivalence", pull.Pos(), c04Cfg(c), func(s *Scn) {
		r := newResColl(s, false, s.eqComparer())
		if s.Bool("initial item") {
			r.write(true, strID("x"), &wopts{})
		}
		o := subOpts{backpressure: true, updatesOnly: s.Bool("updates only")}
		rd := s.Read(r.pull(s.Ctx("ctx"), o.build(s)...))
		want := r.seeds(o)
		from := len(r.events)
		for i := 0; i < 3; i++ {
			switch s.Pick(fmt.Sprint("write ", i), 3) {
			case 0:
				r.write(false, strID("x"), &wopts{createIfAbsent: true})
			case 1:
				r.write(false, strID("y"), &wopts{createIfAbsent: true})
			case 2:
				r.delete(strID("x"), &wopts{allowMissing: true})
			}
		}
		s.P.Settle()
		held := map[string]string{}
		for _, w := range want {
			held[w.id] = w.new
		}
		for _, d := range r.due(o, from) {
			h, ok := held[d.id]
			if !ok {
				h = d.old
			}
			if d.new == "nil" {
				delete(held, d.id)
				want = append(want, d)
				continue
			}
			if s.equivalent(h, d.new) {
				continue
			}
			held[d.id] = d.new
			want = append(want, d)
		}
		s.expect("a subscriber with an equivalence", rd.Events, want, true)
	})
	c.Explore("collection-edit-script", "Collection.Pull and a sequence of writes of many items", pull.Pos(), c04Cfg(c), func(s *Scn) {
		r := newResColl(s, false)
		rd := s.Read(r.pull(s.Ctx("ctx"), s.backpressure()))
		for _, op := range []string{"+c", "+a", "!a", "-c", "+b", "-c", "+c", "!c", "!z", "-a", "+a", "+a", "-b", "-a", "-c", "-c", "+b"} {
			switch op[0] {
			case '+':
				r.write(true, strID(op[1:]), &wopts{})
			case '!':
				r.write(false, strID(op[1:]), &wopts{})
			case '-':
				r.delete(strID(op[1:]), &wopts{})
			}
		}
		s.expect("a subscriber", rd.Events, r.due(subOpts{}, 0), false)
	})
}

func c04PullID(c *Ctx) {
	pull := c.Method(resPkg, "Collection", "PullID")
	for _, canon := range []bool{false, true} {
		name := "Collection.PullID and 2 writes"
		if canon {
			name += " with an id interceptor"
		}
		c.Explore("pullid-edit-script", name, pull.Pos(), c04Cfg(c), func(s *Scn) {
			r := newResColl(s, canon)
			if s.Bool("initial item") {
				r.write(true, strID("x"), &wopts{})
			}
			if s.Bool("another item") {
				r.write(true, strID("y"), &wopts{})
			}
			o := subOpts{backpressure: true, updatesOnly: s.Bool("updates only")}
			if s.Bool("read mask") {
				o.mask = s.Mask("readMask")
			}
			ch := s.M(r.v, resPkg, "Collection", "PullID", append([]Val{s.Ctx("ctx"), strID("x")}, o.build(s)...)...)[0]
			rd := s.Read(ch)
			x := idKey(r.key(strID("x")))
			var want []chg
			for _, w := range r.seeds(o) {
				if w.id == x {
					want = append(want, w)
				}
			}
			from := len(r.events)
			for i := 0; i < 2; i++ {
				r.randomWrite(fmt.Sprint("write ", i), []string{"x", "y"})
			}
			s.P.Settle()
			closed := false
			for _, d := range r.due(o, from) {
				if closed || d.id != x {
					continue
				}
				if d.kind == "REMOVE" {
					closed = true
					continue
				}
				want = append(want, d)
			}
			if rd.Closed != closed {
				s.Fail("a single item subscription (%s): ended is %v instead of %v", o, rd.Closed, closed)
			}
			if len(rd.Events) != len(want) {
				s.Fail("a single item subscriber (%s) receives %d changes instead of %d", o, len(rd.Events), len(want))
				return
			}
			for i, e := range rd.Events {
				w := want[i]
				if got := s.Content(s.Field(e, "Value")); got != w.new {
					s.Fail("a single item subscriber (%s) receives %s instead of %s", o, got, w.new)
				}
				if t := s.Field(e, "ChangeTime"); w.time != nil && !s.sameTime(t, w.time) {
					s.Fail("the change time of a change is %s instead of %s", tkey(t), tkey(w.time))
				}
				if s.P.Truth(s.Field(e, "SeedValue")) != w.seed {
					s.Fail("the seed flag of a change isn't %v", w.seed)
				}
				// there's one item only
				if s.P.Truth(s.Field(e, "LastSeedValue")) && !w.seed {
					s.Fail("an update is flagged as last seed value")
				}
			}
		})
	}
}

// chain checks that changes apply to what the subscriber has.
func (s *Scn) chain(what string, evs []Val, exact bool) lstate {
	return s.chainFrom(lstate{}, what, evs, exact)
}

func (s *Scn) chainFrom(view lstate, what string, evs []Val, exact bool) lstate {
	for _, e := range evs {
		c := s.chg(e)
		cur, ok := view[c.id]
		switch c.kind {
		case "ADD":
			if ok && exact {
				s.Fail("%s: receives %s but the item was added already", what, c)
			}
			view[c.id] = c.new
		case "UPDATE", "REPLACE":
			if !ok {
				s.Fail("%s: receives %s of an item it doesn't have", what, c)
			} else if cur != c.old {
				s.Fail("%s: receives %s but has %s", what, c, cur)
			}
			view[c.id] = c.new
		case "REMOVE":
			if !ok {
				s.Fail("%s: receives %s of an item it doesn't have", what, c)
			} else if cur != c.old {
				s.Fail("%s: receives %s but has %s", what, c, cur)
			}
			delete(view, c.id)
		default:
			s.Fail("%s: receives a change of kind %s", what, c.kind)
		}
	}
	return view
}

func c04Racing(c *Ctx) {
	pull := c.Method(resPkg, "Collection", "Pull")
	for _, kinds := range [][]string{{"update", "delete"}, {"upsert", "update"}, {"delete", "add"}, {"add", "delete", "add"}} {
		c.Explore("racing-subscriber", "Collection.Pull during "+strings.Join(kinds, ", "), pull.Pos(), checkOracle(subPoints(concCfg(c, 2))), func(s *Scn) {
			var opts []Val
			if kinds[0] != "add" {
				opts = append(opts, s.F(resPkg, "WithInitialRecord", strID("x"), s.Msg("seed")))
			}
			r := newResColl(s, false, opts...)
			o := subOpts{backpressure: true}
			ctx := s.Ctx("ctx")
			var rd *Reader
			done := 0
			var ops []*lop
			for j, k := range kinds {
				ops = append(ops, r.lop(k, "x", fmt.Sprintf("w0%d.", j)))
			}
			s.runOps("w0", ops, &done)
			s.P.Spawn("sub", func() { rd = s.Read(r.pull(ctx, o.build(s)...)) })
			s.P.Settle()
			if done != 1 || rd == nil {
				s.Stop("the writer or the subscriber doesn't finish")
			}
			view := s.chain("a subscriber opened while writing", rd.Events, true)
			if final := r.state([]string{"x"}); view.String() != final.String() {
				s.Fail("the changes fold to %s instead of %s", view, final)
			}
		})
	}
	c.Explore("racing-subscriber", "Value.Pull during set, set", c.Method(resPkg, "Value", "Pull").Pos(), checkOracle(subPoints(concCfg(c, 2))), func(s *Scn) {
		r := newResValue(s, false, true)
		ctx := s.Ctx("ctx")
		var rd *Reader
		done := 0
		ops := []*lop{r.lop("set", "w00."), r.lop("set", "w01.")}
		versions := map[string]int{r.content: 0}
		s.runOps("w0", ops, &done)
		s.P.Spawn("sub", func() { rd = s.Read(r.pull(ctx, s.backpressure())) })
		s.P.Settle()
		if done != 1 || rd == nil {
			s.Stop("the writer or the subscriber doesn't finish")
		}
		for i, o := range ops {
			versions[o.content] = i + 1
		}
		last := -1
		for i, e := range rd.Events {
			v, ok := versions[s.Content(s.Field(e, "Value"))]
			if !ok {
				s.Fail("a subscriber opened while writing receives a value that was never stored")
			} else if i > 0 && v != last+1 {
				s.Fail("a subscriber opened while writing receives version %d after %d", v, last)
			}
			last = v
		}
		if last != 2 {
			s.Fail("the last version received is %d", last)
		}
	})
}
