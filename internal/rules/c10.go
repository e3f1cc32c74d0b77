package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"scverify/internal/absint"
)

func init() {
	register("C10", "bus-delivery", "Events reach every live listener once, in order, and nothing else", c10Bus)
	register("C10", "cancel-subscription", "Cancelling a subscription ends it without disturbing anything", c10Cancel)
	register("C10", "removed-item", "A single item subscription ends with the item", c10Removed)
	register("C10", "model-subscriptions", "The subscriptions of every trait model end when cancelled", c10Models)
}

const busPkg = "internal/minibus"

// cancelPoints lets every thread lose control to and from the ones whose name starts with one of the prefixes.
func cancelPoints(cfg *absint.Config, preempt int) *absint.Config {
	cfg.Preempt = preempt
	cfg.SelectFirst = false
	cfg.YieldAccess = false
	cfg.MaxSteps = 2000000
	cfg.PreemptAt = func(p *absint.Path, t *absint.Thread, what string) bool {
		return t.ID != 0 && t.Name != "reader" && !strings.HasPrefix(t.Name, "env")
	}
	cfg.PreemptTo = func(t *absint.Thread) bool {
		return t.Name != "reader" && !strings.HasPrefix(t.Name, "env")
	}
	return cfg
}

func c10Bus(c *Ctx) {
	send := c.Method(busPkg, "Bus", "Send")
	pre := 2
	if c.Tier == "thorough" {
		pre = 3
	}
	newBus := func(s *Scn) Val { return s.P.Alloc(c.Type(busPkg, "Bus"), "bus") }
	listen := func(s *Scn, b, ctx Val) Val { return s.M(b, busPkg, "Bus", "Listen", ctx)[0] }
	type sent struct {
		key        string
		start, end int
		ok         bool
	}
	// senders of n events each
	senders := func(s *Scn, b Val, n, each int, tick func() int, done *int) [][]*sent {
		var all [][]*sent
		for i := 0; i < n; i++ {
			var mine []*sent
			for j := 0; j < each; j++ {
				mine = append(mine, &sent{key: fmt.Sprintf("\"e%d.%d\"", i, j)})
			}
			all = append(all, mine)
			s.P.Spawn(fmt.Sprint("w", i), func() {
				for j, e := range mine {
					e.start = tick()
					e.ok = s.P.Truth(s.M(b, busPkg, "Bus", "Send", s.Background(), Iface(absint.MkString(fmt.Sprintf("e%d.%d", i, j))))[0])
					e.end = tick()
				}
				*done++
			})
		}
		return all
	}
	verify := func(s *Scn, what string, rd *Reader, all [][]*sent, liveFrom, liveTo int) {
		pos := map[string]int{}
		for i, e := range rd.Events {
			k := absint.Key(e)
			if _, dup := pos[k]; dup {
				s.Fail("%s receives %s twice", what, k)
			}
			pos[k] = i
		}
		for _, mine := range all {
			last := -1
			for _, e := range mine {
				at, ok := pos[e.key]
				if !ok {
					if e.start >= liveFrom && (liveTo == 0 || e.end < liveTo) {
						s.Fail("%s doesn't receive an event", what)
					}
					continue
				}
				if e.end != 0 && e.end < liveFrom {
					s.Fail("%s receives an event sent before it listened", what)
				}
				if at < last {
					s.Fail("%s receives the events of a sender out of order", what)
				}
				last = at
			}
		}
	}
	for _, h := range []struct {
		n, each int
		late    bool
		cancel  bool
	}{{1, 2, false, true}, {2, 1, false, true}, {1, 2, true, false}, {2, 2, false, false}, {2, 1, true, true}} {
		name := fmt.Sprintf("%d senders of %d events", h.n, h.each)
		if h.cancel {
			name += ", a listener is cancelled"
		}
		if h.late {
			name += ", a listener starts late"
		}
		p := pre
		if h.late && h.cancel || h.n*h.each > 2 {
			p = pre - 1
		}
		c.Explore("bus-delivery", name, send.Pos(), cancelPoints(resCfg(c), p), func(s *Scn) {
			b := newBus(s)
			t := 0
			tick := func() int { t++; return t }
			ctx1, ctx2 := s.Ctx("ctx1"), s.Ctx("ctx2")
			var rd1, rd2, rd3 *Reader
			if s.Bool("cancelled listener first") {
				rd1 = s.Read(listen(s, b, ctx1))
				rd2 = s.Read(listen(s, b, ctx2))
			} else {
				rd2 = s.Read(listen(s, b, ctx2))
				rd1 = s.Read(listen(s, b, ctx1))
			}
			from, from3, to := tick(), 0, 0
			done := 0
			all := senders(s, b, h.n, h.each, tick, &done)
			if h.cancel {
				s.P.Spawn("w.cancel", func() {
					to = tick()
					s.P.CancelCtx(ctx1)
				})
			}
			if h.late {
				ctx3 := s.Ctx("ctx3")
				s.P.Spawn("w.listen", func() {
					rd3 = s.Read(listen(s, b, ctx3))
					from3 = tick()
				})
			}
			s.P.Settle()
			if done != h.n {
				s.Stop("a sender doesn't finish")
			}
			for _, mine := range all {
				for _, e := range mine {
					if !e.ok {
						s.Fail("Send reports failure although its context isn't cancelled")
					}
				}
			}
			if h.cancel && !rd1.Closed {
				s.Fail("the channel of a cancelled listener isn't closed")
			}
			if rd2.Closed {
				s.Fail("the channel of a live listener is closed")
			}
			verify(s, "a cancelled listener", rd1, all, from, to)
			verify(s, "a live listener", rd2, all, from, 0)
			if rd3 != nil {
				verify(s, "a late listener", rd3, all, from3, 0)
			}
			// it still works
			n := len(rd2.Events)
			ok := s.P.Truth(s.M(b, busPkg, "Bus", "Send", s.Background(), Iface(absint.MkString("afterwards")))[0])
			s.P.Settle()
			if !ok || len(rd2.Events) != n+1 {
				s.Fail("a live listener doesn't receive what's sent after another was cancelled")
			}
		})
	}
	c.Explore("bus-delivery", "a send is cancelled while a listener doesn't receive", send.Pos(), cancelPoints(resCfg(c), pre), func(s *Scn) {
		b := newBus(s)
		ctx1, ctx2, sctx := s.Ctx("ctx1"), s.Ctx("ctx2"), s.Ctx("sendCtx")
		ch := listen(s, b, ctx1)
		rd2 := s.Read(listen(s, b, ctx2))
		done, ok := false, false
		s.P.Spawn("w0", func() {
			ok = s.P.Truth(s.M(b, busPkg, "Bus", "Send", sctx, Iface(absint.MkString("e")))[0])
			done = true
		})
		s.P.Spawn("w.cancel", func() { s.P.CancelCtx(sctx) })
		s.P.Settle()
		if !done {
			s.Stop("Send doesn't return when its context is cancelled")
		}
		if ok {
			s.Fail("Send reports success although a listener didn't receive the event")
		}
		rd1 := s.Read(ch)
		ok = s.P.Truth(s.M(b, busPkg, "Bus", "Send", s.Background(), Iface(absint.MkString("f")))[0])
		s.P.Settle()
		if !ok || len(rd1.Events) != 1 || len(rd2.Events) == 0 || len(rd2.Events) > 2 || absint.Key(rd2.Events[len(rd2.Events)-1]) != `"f"` {
			s.Fail("a send after one that was cancelled doesn't reach every listener once")
		}
	})
	c.Explore("bus-delivery", "a listener that doesn't receive is cancelled", send.Pos(), cancelPoints(resCfg(c), pre), func(s *Scn) {
		b := newBus(s)
		ctx1, ctx2 := s.Ctx("ctx1"), s.Ctx("ctx2")
		ch := listen(s, b, ctx1)
		rd2 := s.Read(listen(s, b, ctx2))
		done := 0
		t := 0
		all := senders(s, b, 2, 1, func() int { t++; return t }, &done)
		s.P.Spawn("w.cancel", func() { s.P.CancelCtx(ctx1) })
		s.P.Settle()
		if done != 2 {
			s.Stop("a sender waits for a listener that was cancelled")
		}
		verify(s, "a live listener", rd2, all, 0, 0)
		rd1 := s.Read(ch)
		s.P.Settle()
		if !rd1.Closed {
			s.Fail("the channel of a cancelled listener isn't closed")
		}
	})
	c.Explore("bus-delivery", "Listen with a cancelled context", c.Method(busPkg, "Bus", "Listen").Pos(), cancelPoints(resCfg(c), pre), func(s *Scn) {
		b := newBus(s)
		ctx := s.Ctx("ctx1")
		s.P.CancelCtx(ctx)
		done := 0
		t := 0
		senders(s, b, 1, 1, func() int { t++; return t }, &done)
		var rd *Reader
		s.P.Spawn("w.listen", func() { rd = s.Read(listen(s, b, ctx)) })
		s.P.Settle()
		if done != 1 || rd == nil || !rd.Closed {
			s.Fail("listening with a cancelled context doesn't close the channel")
		}
	})
}

func c10Cancel(c *Ctx) {
	pre := 1
	if c.Tier == "thorough" {
		pre = 2
	}
	for _, what := range []string{"Value.Pull", "Collection.Pull", "Collection.PullID"} {
		for _, pace := range []string{"receives", "doesn't receive"} {
			typ, method := what[:strings.Index(what, ".")], what[strings.Index(what, ".")+1:]
			fn := c.Method(resPkg, typ, method)
			c.Explore("cancel-subscription", what+" by a reader that "+pace, fn.Pos(), cancelPoints(c04Cfg(c), pre), func(s *Scn) {
				o := subOpts{backpressure: s.Bool("backpressure"), updatesOnly: s.Bool("updates only")}
				ctx1, ctx2 := s.Ctx("ctx1"), s.Ctx("ctx2")
				var rd1 *Reader
				var ch1 Val
				var other Val
				var ops []*lop
				sub := func(v Val, ctx Val, o subOpts) Val {
					args := []Val{ctx}
					if method == "PullID" {
						args = append(args, strID("x"))
					}
					return s.M(v, resPkg, typ, method, append(args, o.build(s)...)...)[0]
				}
				n := 2
				o2 := subOpts{backpressure: true, updatesOnly: true}
				var res Val
				if typ == "Value" {
					r := newResValue(s, false, true)
					ops = append(ops, r.lop("set", "w0."), r.lop("set", "w1."))
					res = r.v
				} else {
					r := newResColl(s, false, s.F(resPkg, "WithInitialRecord", strID("x"), s.Msg("seed")))
					ops = append(ops, r.lop("update", "x", "w0."), r.lop("update", "x", "w1."))
					res = r.v
				}
				first := s.Bool("cancelled subscriber first")
				var mine func() []*absint.Thread
				if first {
					mine = s.startedBy(func() { ch1 = sub(res, ctx1, o) })
				}
				other = sub(res, ctx2, o2)
				if !first {
					mine = s.startedBy(func() { ch1 = sub(res, ctx1, o) })
				}
				rd2 := s.Read(other)
				if pace == "receives" {
					rd1 = s.Read(ch1)
				}
				done := 0
				s.runOps("w0", ops, &done)
				s.P.Spawn("w.cancel", func() { s.P.CancelCtx(ctx1) })
				s.P.Settle()
				if done != 1 {
					s.Stop("a writer waits for a subscriber (%s) that was cancelled", o)
				}
				for _, op := range ops {
					if op.code != "OK" {
						s.Fail("%s reports %s when a subscriber is cancelled", op.name, op.code)
					}
				}
				for _, t := range mine() {
					s.Fail("goroutine started by %s doesn't end when the subscriber (%s) is cancelled: waiting for %s", t.StartedBy(), o, stripIDs(t.Waiting()))
				}
				if rd1 == nil {
					rd1 = s.Read(ch1)
					s.P.Settle()
				}
				if !rd1.Closed {
					s.Fail("the channel of a cancelled subscriber (%s) isn't closed", o)
				}
				if rd2.Closed || len(rd2.Events) != n {
					s.Fail("another subscriber receives %d of %d changes when one (%s) is cancelled", len(rd2.Events), n, o)
				}
			})
		}
	}
	// subscribing with a context that's cancelled at the same time
	for _, what := range []string{"Value.Pull", "Collection.Pull", "Collection.PullID"} {
		typ, method := what[:strings.Index(what, ".")], what[strings.Index(what, ".")+1:]
		fn := c.Method(resPkg, typ, method)
		c.Explore("cancel-subscription", what+" is cancelled while subscribing", fn.Pos(), cancelPoints(c04Cfg(c), pre), func(s *Scn) {
			o := subOpts{backpressure: s.Bool("backpressure"), updatesOnly: s.Bool("updates only")}
			ctx := s.Ctx("ctx")
			var op *lop
			var res Val
			if typ == "Value" {
				r := newResValue(s, false, true)
				op, res = r.lop("set", "w0."), r.v
			} else {
				r := newResColl(s, false, s.F(resPkg, "WithInitialRecord", strID("x"), s.Msg("seed")))
				op, res = r.lop("update", "x", "w0."), r.v
			}
			var ch Val
			s.P.Spawn("w.sub", func() {
				args := []Val{ctx}
				if method == "PullID" {
					args = append(args, strID("x"))
				}
				ch = s.M(res, resPkg, typ, method, append(args, o.build(s)...)...)[0]
			})
			done := 0
			s.runOps("w0", []*lop{op}, &done)
			s.P.Spawn("w.cancel", func() { s.P.CancelCtx(ctx) })
			s.P.Settle()
			if done != 1 || ch == nil {
				s.Stop("a writer or the subscriber (%s) doesn't finish", o)
			}
			rd := s.Read(ch)
			s.P.Settle()
			if !rd.Closed {
				s.Fail("the channel of a cancelled subscriber (%s) isn't closed", o)
			}
		})
	}
}

func c10Removed(c *Ctx) {
	fn := c.Method(resPkg, "Collection", "PullID")
	for _, late := range []string{"delete", "update, delete", "delete, add", "delete, update other"} {
		c.Explore("removed-item", "Collection.PullID during "+late, fn.Pos(), cancelPoints(c04Cfg(c), 1), func(s *Scn) {
			r := newResColl(s, false, s.F(resPkg, "WithInitialRecord", strID("x"), s.Msg("seed")), s.F(resPkg, "WithInitialRecord", strID("y"), s.Msg("other")))
			o := subOpts{backpressure: s.Bool("backpressure"), updatesOnly: s.Bool("updates only")}
			ctx := s.Ctx("ctx")
			ch := s.M(r.v, resPkg, "Collection", "PullID", append([]Val{ctx, strID("x")}, o.build(s)...)...)[0]
			rd := s.Read(ch)
			s.P.Settle()
			var ops []*lop
			for i, k := range strings.Split(late, ", ") {
				id := "x"
				if k == "update other" {
					k, id = "update", "y"
				}
				ops = append(ops, r.lop(k, id, fmt.Sprintf("w%d.", i)))
			}
			done := 0
			s.runOps("w0", ops, &done)
			s.P.Settle()
			if done != 1 {
				s.Stop("a writer waits for a single item subscription (%s)", o)
			}
			if !rd.Closed {
				if o.backpressure || late == "delete" {
					s.Fail("a single item subscription (%s) doesn't end when the item is removed", o)
				}
				return
			}
			for _, t := range s.P.Live() {
				if !strings.HasPrefix(t.Name, "env") {
					s.Fail("goroutine started by %s doesn't end with the single item subscription (%s): waiting for %s", t.StartedBy(), o, stripIDs(t.Waiting()))
				}
			}
			// nobody is held up
			op := r.lop("update", "y", "w9.")
			s.runOps("w1", []*lop{op}, &done)
			s.P.Settle()
			if done != 2 {
				s.Fail("a writer waits for a single item subscription (%s) that ended", o)
			}
		})
	}
}

// startedBy runs f, returns the goroutines it started that still run.
func (s *Scn) startedBy(f func()) func() []*absint.Thread {
	before := map[int]bool{}
	for _, t := range s.P.Live() {
		before[t.ID] = true
	}
	f()
	var mine []*absint.Thread
	for _, t := range s.P.Live() {
		if !before[t.ID] && !strings.HasPrefix(t.Name, "env") && t.Name != "reader" {
			mine = append(mine, t)
		}
	}
	return func() []*absint.Thread {
		var r []*absint.Thread
		for _, t := range mine {
			if !t.Done {
				r = append(r, t)
			}
		}
		return r
	}
}

// pullArgs are the arguments of a subscription, the ids are "x".
func (s *Scn) pullArgs(fn *ssa.Function, ctx Val, opts ...Val) []Val {
	sig := fn.Signature
	args := []Val{ctx}
	for i := 1; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if sig.Variadic() && i == sig.Params().Len()-1 {
			args = append(args, s.P.MkSlice(t, "opts", opts...))
			continue
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			args = append(args, strID("x"))
			continue
		}
		args = append(args, s.P.Zero(t))
	}
	return args
}

// touch writes something to a resource.
func (s *Scn) touch(kind string, v Val, name string) []Val {
	msg := s.Msg(name)
	if kind == "Value" {
		return s.M(v, resPkg, "Value", "Set", msg, s.F(resPkg, "WithAllFieldsWritable"))
	}
	return s.M(v, resPkg, "Collection", "Update", strID("x"), msg, s.F(resPkg, "WithCreateIfAbsent"), s.F(resPkg, "WithAllFieldsWritable"))
}

func c10Models(c *Ctx) {
	n := 0
	for _, m := range c.models() {
		for _, fn := range c.methods(m.t) {
			if !isPull(fn) {
				continue
			}
			n++
			cfg := anyEquivalence(cancelPoints(c04Cfg(c), 0))
			c.Explore("model-subscriptions", m.String()+"."+fn.Name(), fn.Pos(), cfg, func(s *Scn) {
				mv := s.newModel(m)
				names, vals, kinds := s.resources(mv)
				for _, n := range names {
					if kinds[n] == "Collection" && s.Bool("has an item "+n) {
						s.touch(kinds[n], vals[n], "seed "+n)
					}
				}
				o := subOpts{backpressure: s.Bool("backpressure"), updatesOnly: s.Bool("updates only")}
				ctx := s.Ctx("ctx")
				var ch Val
				mine := s.startedBy(func() { ch = s.Call(fn, append([]Val{mv}, s.pullArgs(fn, ctx, o.build(s)...)...)...)[0] })
				rd := s.stepReader(ch)
				take := s.Pick("received before", 3)
				written := false
				n := names[s.Pick("resource", len(names))]
				s.P.Spawn("w", func() {
					for i := 0; i < 2; i++ {
						s.touch(kinds[n], vals[n], fmt.Sprint("written ", i))
					}
					written = true
				})
				s.P.Settle()
				for i := 0; i < take; i++ {
					rd.take()
				}
				s.P.CancelCtx(ctx)
				s.P.Settle()
				if !written {
					s.Stop("a writer waits for a subscriber (%s) that was cancelled", o)
				}
				// nobody receives any more
				for _, t := range mine() {
					s.Fail("goroutine started by %s doesn't end when the subscriber (%s) is cancelled: waiting for %s", t.StartedBy(), o, stripIDs(t.Waiting()))
				}
				for rd.take() {
				}
				if !rd.Closed {
					s.Fail("the channel of a cancelled subscriber (%s) isn't closed", o)
				}
			})
		}
	}
	c.Count("subscription methods of models", n)
	if n < 20 {
		c.Undecided("model-subscriptions", "enumeration", 0, "only %d subscription methods of models found", n)
	}
}
