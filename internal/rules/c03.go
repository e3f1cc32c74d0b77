package rules

import (
	"fmt"
	"strings"

	"scverify/internal/absint"
)

func init() {
	register("C03", "value-converges", "The last value a subscriber receives is what Get returns", c03Value)
	register("C03", "collection-converges", "The changes a subscriber receives fold to what List returns", c03Collection)
	register("C03", "pullid-converges", "The last value of a single item subscription is what Get returns", c03PullID)
}

// viewItem is what a subscriber knows about an id.
type viewItem struct {
	id      string
	content string
}

// chg is a received collection change, by content.
type chg struct {
	id, kind, old, new string
	time               Val
	seed, last         bool
}

var changeKinds = map[string]string{"0": "UNSPECIFIED", "1": "ADD", "2": "UPDATE", "3": "REMOVE", "4": "REPLACE"}

func (s *Scn) chg(ev Val) chg {
	k := absint.Key(s.Field(ev, "ChangeType"))
	if n, ok := changeKinds[k]; ok {
		k = n
	}
	return chg{
		id:   idKey(s.Field(ev, "Id")),
		kind: k,
		old:  s.Content(s.Field(ev, "OldValue")),
		new:  s.Content(s.Field(ev, "NewValue")),
		time: s.Field(ev, "ChangeTime"),
		seed: s.P.Truth(s.Field(ev, "SeedValue")),
		last: s.P.Truth(s.Field(ev, "LastSeedValue")),
	}
}

func (c chg) String() string {
	r := fmt.Sprintf("%s %s %s->%s", c.kind, c.id, c.old, c.new)
	if c.seed {
		r += " seed"
	}
	if c.last {
		r += " last"
	}
	return r
}

func idKey(v Val) string {
	if x, ok := absint.StringConst(v); ok {
		return x
	}
	return absint.Key(v)
}

// fold applies changes to a view.
func (s *Scn) fold(evs []Val) lstate {
	st := lstate{}
	for _, e := range evs {
		c := s.chg(e)
		switch c.kind {
		case "REMOVE":
			delete(st, c.id)
		default:
			st[c.id] = c.new
		}
	}
	return st
}

// pace is when a reader receives.
func (s *Scn) pacedReader(ch Val, slow bool) (*Reader, func()) {
	r := &Reader{s: s, Ch: ch}
	s.readers = append(s.readers, r)
	open := !slow
	r.T = s.P.Spawn("reader", func() {
		s.P.WaitFor("the reader to continue", func() bool { return open })
		for {
			v, ok := s.P.ChanRecv(ch)
			if !ok {
				r.Closed = true
				return
			}
			r.Events = append(r.Events, v)
		}
	})
	return r, func() { open = true }
}

// subOpts chooses the options of a subscription.
type subOpts struct {
	backpressure, updatesOnly bool
	mask                      Val
	slow                      bool
}

func (s *Scn) subOpts(withMask bool) subOpts {
	o := subOpts{backpressure: s.Bool("backpressure"), updatesOnly: s.Bool("updates only")}
	if withMask && s.Bool("read mask") {
		o.mask = s.Mask("readMask")
	}
	if !o.backpressure {
		o.slow = s.Bool("slow reader")
	}
	return o
}

func (o subOpts) build(s *Scn) []Val {
	r := []Val{s.F(resPkg, "WithBackpressure", absint.MkBool(o.backpressure))}
	if o.updatesOnly {
		r = append(r, s.updatesOnly())
	}
	if o.mask != nil {
		r = append(r, s.F(resPkg, "WithReadMask", o.mask))
	}
	return r
}

func (o subOpts) view(content string) string {
	if o.mask != nil {
		return projTerm(o.mask, content)
	}
	return content
}

func (o subOpts) String() string {
	var r []string
	if o.backpressure {
		r = append(r, "backpressure")
	} else {
		r = append(r, "lossy")
	}
	if o.updatesOnly {
		r = append(r, "updates only")
	}
	if o.mask != nil {
		r = append(r, "masked")
	}
	if o.slow {
		r = append(r, "slow reader")
	}
	return strings.Join(r, ", ")
}

func subPoints(cfg *absint.Config) *absint.Config {
	cfg.YieldAccess = false
	cfg.PreemptTo = func(t *absint.Thread) bool { return strings.HasPrefix(t.Name, "w") || t.Name == "sub" }
	cfg.PreemptAt = func(p *absint.Path, t *absint.Thread, what string) bool {
		return (strings.HasPrefix(t.Name, "w") || t.Name == "sub") && !strings.HasPrefix(what, "go")
	}
	return cfg
}

// ops that run one after the other in a thread
func (s *Scn) runOps(name string, ops []*lop, done *int) {
	tick := func() int { s.ticks++; return s.ticks }
	s.P.Spawn(name, func() {
		for _, o := range ops {
			o.start = tick()
			o.code, o.content = o.run()
			o.end = tick()
			o.ended = true
		}
		*done++
	})
}

func c03Value(c *Ctx) {
	pull := c.Method(resPkg, "Value", "Pull")
	pre := 1
	if c.Tier == "thorough" {
		pre = 2
	}
	for _, hist := range [][][]string{{{"set"}}, {{"set", "set"}}, {{"set"}, {"delta"}}, {{"delta"}, {"check"}}} {
		name := fmt.Sprint(hist)
		c.Explore("value-converges", "Value.Pull with writers "+name, pull.Pos(), checkOracle(subPoints(concCfg(c, pre+1))), func(s *Scn) {
			r := newResValue(s, false, true)
			o := s.subOpts(true)
			ctx := s.Ctx("ctx")
			done, subAt := 0, 0
			var rd *Reader
			open := func() {}
			var all []*lop
			sub := func() {
				s.P.Spawn("sub", func() {
					ch := r.pull(ctx, o.build(s)...)
					s.ticks++
					subAt = s.ticks
					rd, open = s.pacedReader(ch, o.slow)
				})
			}
			first := s.Bool("subscriber starts first")
			if first {
				sub()
			}
			for i, kinds := range hist {
				var ops []*lop
				for j, k := range kinds {
					ops = append(ops, r.lop(k, fmt.Sprintf("w%d%d.", i, j)))
				}
				all = append(all, ops...)
				s.runOps(fmt.Sprint("w", i), ops, &done)
			}
			if !first {
				sub()
			}
			s.P.Settle()
			if done != len(hist) || rd == nil {
				s.Stop("a writer or the subscriber doesn't finish (%s)", o)
			}
			open()
			s.P.Settle()
			final := o.view(r.get())
			late := false
			for _, op := range all {
				if op.code == "OK" && op.start > subAt {
					late = true
				}
			}
			if len(rd.Events) == 0 {
				if !o.updatesOnly || late {
					s.Fail("a subscriber (%s) receives nothing", o)
				}
				return
			}
			if got := s.Content(s.Field(rd.Events[len(rd.Events)-1], "Value")); got != final {
				s.Fail("the last value received by a subscriber (%s) is %s, Get returns %s", o, got, final)
			}
		})
	}
}

func c03Collection(c *Ctx) {
	pull := c.Method(resPkg, "Collection", "Pull")
	pre := 1
	if c.Tier == "thorough" {
		pre = 2
	}
	type op struct{ kind, id string }
	for _, h := range []struct {
		name  string
		hist  [][]op
		seedX bool
	}{
		{"update", [][]op{{{"update", "x"}}}, true},
		{"add", [][]op{{{"add", "x"}}}, false},
		{"delete", [][]op{{{"delete", "x"}}}, true},
		{"add, delete", [][]op{{{"add", "x"}, {"delete", "x"}}}, false},
		{"delete, add", [][]op{{{"delete", "x"}, {"add", "x"}}}, true},
		{"update | delta", [][]op{{{"update", "x"}}, {{"delta", "x"}}}, true},
		{"update | delete", [][]op{{{"update", "x"}}, {{"delete", "x"}}}, true},
		{"add | delete", [][]op{{{"add", "x"}}, {{"delete", "x"}}}, false},
		{"upsert | add y", [][]op{{{"upsert", "x"}}, {{"add", "y"}}}, true},
		{"delete | add y", [][]op{{{"delete", "x"}}, {{"add", "y"}}}, true},
	} {
		c.Explore("collection-converges", "Collection.Pull with writers "+h.name, pull.Pos(), checkOracle(subPoints(concCfg(c, pre+1))), func(s *Scn) {
			var opts []Val
			if h.seedX {
				opts = append(opts, s.F(resPkg, "WithInitialRecord", strID("x"), s.Msg("seed")))
			}
			r := newResColl(s, false, opts...)
			o := s.subOpts(len(h.hist) == 1)
			ctx := s.Ctx("ctx")
			done, subAt := 0, 0
			var rd *Reader
			open := func() {}
			var all []*lop
			sub := func() {
				s.P.Spawn("sub", func() {
					ch := r.pull(ctx, o.build(s)...)
					s.ticks++
					subAt = s.ticks
					rd, open = s.pacedReader(ch, o.slow)
				})
			}
			first := s.Bool("subscriber starts first")
			if first {
				sub()
			}
			for i, ks := range h.hist {
				var ops []*lop
				for j, k := range ks {
					ops = append(ops, r.lop(k.kind, k.id, fmt.Sprintf("w%d%d.", i, j)))
				}
				all = append(all, ops...)
				s.runOps(fmt.Sprint("w", i), ops, &done)
			}
			if !first {
				sub()
			}
			s.P.Settle()
			if done != len(h.hist) || rd == nil {
				s.Stop("a writer or the subscriber doesn't finish (%s)", o)
			}
			open()
			s.P.Settle()
			final := lstate{}
			for k, v := range r.state([]string{"x", "y"}) {
				final[k] = o.view(v)
			}
			view := s.fold(rd.Events)
			if !o.updatesOnly {
				if view.String() != final.String() {
					s.Fail("the changes received by a subscriber (%s) fold to %s, List returns %s", o, view, final)
				}
				return
			}
			for _, id := range []string{"x", "y"} {
				seen := false
				for _, e := range rd.Events {
					if s.chg(e).id == id {
						seen = true
					}
				}
				late := false
				for _, op := range all {
					if op.code == "OK" && op.start > subAt && op.id == id {
						late = true
					}
				}
				if seen && view[id] != final[id] {
					s.Fail("the changes received by a subscriber (%s) fold to %s, List returns %s", o, view, final)
				}
				if late && !seen && final[id] != "" {
					s.Fail("a subscriber (%s) doesn't receive a change made after subscribing", o)
				}
			}
		})
	}
}

func c03PullID(c *Ctx) {
	pull := c.Method(resPkg, "Collection", "PullID")
	type op struct{ kind, id string }
	for _, h := range []struct {
		name  string
		hist  [][]op
		seedX bool
	}{
		{"update", [][]op{{{"update", "x"}}}, true},
		{"add", [][]op{{{"add", "x"}, {"update", "x"}}}, false},
		{"delete", [][]op{{{"delete", "x"}}}, true},
		{"other", [][]op{{{"add", "y"}, {"delete", "y"}, {"update", "x"}}}, true},
		{"delete | upsert", [][]op{{{"delete", "x"}}, {{"upsert", "x"}}}, true},
		{"update | delta", [][]op{{{"update", "x"}}, {{"delta", "x"}}}, true},
	} {
		for _, canon := range []bool{false, true} {
			if canon && len(h.hist) > 1 {
				continue
			}
			name := "Collection.PullID with writers " + h.name
			if canon {
				name += " and an id interceptor"
			}
			c.Explore("pullid-converges", name, pull.Pos(), checkOracle(subPoints(concCfg(c, 2))), func(s *Scn) {
				r := newResColl(s, canon)
				if h.seedX {
					if o := r.lop("add", "x", "seed."); true {
						o.run()
					}
				}
				o := s.subOpts(true)
				ctx := s.Ctx("ctx")
				done, subAt := 0, 0
				var rd *Reader
				open := func() {}
				var all []*lop
				for i, ks := range h.hist {
					var ops []*lop
					for j, k := range ks {
						ops = append(ops, r.lop(k.kind, k.id, fmt.Sprintf("w%d%d.", i, j)))
					}
					all = append(all, ops...)
					s.runOps(fmt.Sprint("w", i), ops, &done)
				}
				s.P.Spawn("sub", func() {
					ch := s.M(r.v, resPkg, "Collection", "PullID", append([]Val{ctx, strID("x")}, o.build(s)...)...)[0]
					s.ticks++
					subAt = s.ticks
					rd, open = s.pacedReader(ch, o.slow)
				})
				s.P.Settle()
				if done != len(h.hist) || rd == nil {
					s.Stop("a writer or the subscriber doesn't finish (%s)", o)
				}
				open()
				s.P.Settle()
				final, exists := r.state([]string{"x"})["x"]
				var late, deleted, lateDel bool
				for _, op := range all {
					if op.code == "OK" && op.id == "x" {
						if strings.Contains(op.name, "Delete") {
							deleted = true
							lateDel = lateDel || op.start > subAt
						} else if op.start > subAt {
							late = true
						}
					}
				}
				if rd.Closed {
					if !deleted {
						s.Fail("a single item subscription (%s) ends although the item wasn't removed", o)
					}
					return
				}
				if lateDel && !exists && !(o.updatesOnly && o.slow) && !(o.slow && late) {
					s.Fail("a single item subscription (%s) doesn't end when the item is removed", o)
				}
				if len(rd.Events) == 0 {
					if exists && (late || !o.updatesOnly) {
						s.Fail("a single item subscriber (%s) receives nothing", o)
					}
					return
				}
				if !exists {
					return
				}
				if got := s.Content(s.Field(rd.Events[len(rd.Events)-1], "Value")); got != o.view(final) {
					s.Fail("the last value received by a single item subscriber (%s) is %s, Get returns %s", o, got, o.view(final))
				}
			})
		}
	}
}
