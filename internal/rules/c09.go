package rules

import (
	"fmt"
	"strings"

	"scverify/internal/absint"
)

func init() {
	register("C09", "lossy-value", "A lossy Value subscription doesn't delay writers and ends with the most recent value", c09Value)
	register("C09", "lossy-collection", "A lossy Collection subscription doesn't delay writers and its changes fold to the contents", c09Collection)
	register("C09", "drop-excess", "DropExcess always has the most recent message", c09DropExcess)
	register("C09", "backpressure", "With backpressure nothing is dropped and writers wait", c09Backpressure)
	register("C09", "send-timeout", "A Value write that can't deliver its event fails after five seconds", c09Timeout)
}

func c09Value(c *Ctx) {
	pull := c.Method(resPkg, "Value", "Pull")
	n := 3
	if c.Tier == "thorough" {
		n = 5
	}
	for _, eq := range []bool{false, true} {
		name := "Value.Pull by a reader that pauses"
		if eq {
			name += " with an equivalence"
		}
		c.Explore("lossy-value", name, pull.Pos(), c04Cfg(c), func(s *Scn) {
			var opts []Val
			if eq {
				opts = append(opts, s.eqComparer())
			}
			r := newResValue(s, false, s.Bool("initial value"), opts...)
			o := subOpts{updatesOnly: s.Bool("updates only")}
			if s.Bool("read mask") {
				o.mask = s.Mask("readMask")
			}
			rd := s.stepReader(r.pull(s.Ctx("ctx"), o.build(s)...))
			var all []string
			if !o.updatesOnly && r.content != "nil" {
				all = append(all, o.view(r.content))
			}
			seeds := len(all)
			for i := 0; i < n; i++ {
				r.set(&wopts{}) // fails if it blocks
				all = append(all, o.view(r.content))
				s.P.Settle()
				if s.Bool(fmt.Sprint("receive ", i)) {
					rd.take()
				}
			}
			for rd.take() {
			}
			at := 0
			var got []string
			for _, e := range rd.Events {
				g := s.Content(s.Field(e, "Value"))
				got = append(got, g)
				for at < len(all) && all[at] != g {
					at++
				}
				if at == len(all) {
					s.Stop("a lossy subscriber (%s) receives [%s] although [%s] was written", o, strings.Join(got, " | "), strings.Join(all, " | "))
				}
				at++
				if s.P.Truth(s.Field(e, "SeedValue")) != (at <= seeds) {
					s.Fail("a lossy subscriber (%s) receives a change with the wrong seed flag", o)
				}
			}
			if len(got) == 0 {
				s.Stop("a lossy subscriber (%s) receives nothing", o)
			}
			last, final := got[len(got)-1], all[len(all)-1]
			if last != final && !(eq && s.equivalent(last, final)) {
				s.Fail("the last value a lossy subscriber (%s) receives is %s instead of %s", o, last, final)
			}
			if t := s.Field(rd.Events[len(rd.Events)-1], "ChangeTime"); last == final && !s.sameTime(t, r.time) {
				s.Fail("the change time of the last value a lossy subscriber receives is %s instead of %s", tkey(t), tkey(r.time))
			}
		})
	}
}

func c09Collection(c *Ctx) {
	pull := c.Method(resPkg, "Collection", "Pull")
	scen := func(n int, ids []string) func(s *Scn) {
		return func(s *Scn) {
			r := newResColl(s, false)
			if s.Bool("initial item") {
				r.write(true, strID(ids[0]), &wopts{})
			}
			o := subOpts{updatesOnly: s.Bool("updates only")}
			rd := s.stepReader(r.pull(s.Ctx("ctx"), o.build(s)...))
			before := r.state(ids)
			for i := 0; i < n; i++ {
				id := ids[0]
				if len(ids) > 1 {
					id = ids[s.Pick(fmt.Sprint("id ", i), len(ids))]
				}
				if s.Bool(fmt.Sprint("delete ", i)) {
					if r.find(strID(id)) == nil {
						s.P.Cut("nothing to delete")
					}
					r.delete(strID(id), &wopts{})
				} else {
					r.write(false, strID(id), &wopts{createIfAbsent: true})
				}
				s.P.Settle()
				for k := s.Pick(fmt.Sprint("receive ", i), 3); k > 0; k-- {
					rd.take()
				}
			}
			for rd.take() {
			}
			start := lstate{}
			if o.updatesOnly {
				start = before
			}
			view := s.chainFrom(start, "a lossy subscriber ("+o.String()+")", rd.Events, false)
			if final := r.state(ids); view.String() != final.String() {
				s.Fail("the changes received by a lossy subscriber (%s) fold to %s, List returns %s", o, view, final)
			}
			for _, it := range r.items {
				id := idKey(s.P.Resolve(it.id))
				for i := len(rd.Events) - 1; i >= 0; i-- {
					if ch := s.chg(rd.Events[i]); ch.id == id {
						if it.time != nil && !s.sameTime(ch.time, it.time) {
							s.Fail("the change time of the last change a lossy subscriber receives is %s instead of %s", tkey(ch.time), tkey(it.time))
						}
						break
					}
				}
			}
		}
	}
	n1, n2 := 4, 3
	if c.Tier == "thorough" {
		n1, n2 = 5, 4
	}
	c.Explore("lossy-collection", fmt.Sprintf("Collection.Pull and %d writes of an item", n1), pull.Pos(), c04Cfg(c), scen(n1, []string{"x"}))
	c.Explore("lossy-collection", fmt.Sprintf("Collection.Pull and %d writes of two items", n2), pull.Pos(), c04Cfg(c), scen(n2, []string{"x", "a"}))
	c.Explore("lossy-collection", "Collection.Pull and many writes without receiving", pull.Pos(), c04Cfg(c), func(s *Scn) {
		r := newResColl(s, false)
		rd := s.stepReader(r.pull(s.Ctx("ctx"), subOpts{}.build(s)...))
		for i, op := range []string{"+c", "+a", "!a", "-c", "+b", "+c", "!c", "-a", "+a", "-b", "+d", "+e", "-d", "!e"} {
			switch op[0] {
			case '+':
				r.write(true, strID(op[1:]), &wopts{})
			case '!':
				r.write(false, strID(op[1:]), &wopts{})
			case '-':
				r.delete(strID(op[1:]), &wopts{})
			}
			s.P.Settle()
			if i == 7 && s.Bool("receive") {
				rd.take()
			}
		}
		for rd.take() {
		}
		view := s.chain("a lossy subscriber", rd.Events, false)
		if final := r.state([]string{"a", "b", "c", "d", "e"}); view.String() != final.String() {
			s.Fail("the changes received by a lossy subscriber fold to %s, List returns %s", view, final)
		}
		if max := 10; len(rd.Events) > max {
			s.Fail("a lossy subscriber that doesn't receive gets %d changes of 5 items", len(rd.Events))
		}
	})
	pullID := c.Method(resPkg, "Collection", "PullID")
	c.Explore("lossy-collection", "Collection.PullID by a reader that pauses", pullID.Pos(), c04Cfg(c), func(s *Scn) {
		r := newResColl(s, false)
		r.write(true, strID("x"), &wopts{})
		o := subOpts{updatesOnly: s.Bool("updates only")}
		rd := s.stepReader(s.M(r.v, resPkg, "Collection", "PullID", append([]Val{s.Ctx("ctx"), strID("x")}, o.build(s)...)...)[0])
		for i := 0; i < n2; i++ {
			r.write(false, strID([]string{"x", "a"}[s.Pick(fmt.Sprint("id ", i), 2)]), &wopts{createIfAbsent: true})
			s.P.Settle()
			if s.Bool(fmt.Sprint("receive ", i)) {
				rd.take()
			}
		}
		for rd.take() {
		}
		if rd.Closed {
			s.Fail("a lossy single item subscription ends although the item wasn't removed")
		}
		if len(rd.Events) == 0 {
			if !o.updatesOnly {
				s.Fail("a lossy single item subscriber receives nothing")
			}
			return
		}
		if got, want := s.Content(s.Field(rd.Events[len(rd.Events)-1], "Value")), r.find(strID("x")).content; got != want {
			s.Fail("the last value of a lossy single item subscriber is %s instead of %s", got, want)
		}
	})
}

func c09DropExcess(c *Ctx) {
	fn := c.Fn("internal/minibus", "DropExcess")
	c.Explore("drop-excess", "DropExcess", fn.Pos(), c04Cfg(c), func(s *Scn) {
		in := s.P.MkChan(fn.Params[0].Type(), "in", 0)
		rd := s.stepReader(s.Call(fn, in)[0])
		var sent []string
		taken := 0
		for i := 0; i < 4; i++ {
			v := Iface(absint.MkString(fmt.Sprint("m", i)))
			o := s.P.Try(func() { s.P.Send(in, v, 0) })
			if o.Block {
				s.Stop("DropExcess delays the sender")
			}
			sent = append(sent, absint.Key(v))
			s.P.Settle()
			if s.Bool(fmt.Sprint("receive ", i)) {
				if !rd.take() {
					s.Stop("DropExcess has nothing although a message was sent")
				}
				if got := absint.Key(rd.Events[len(rd.Events)-1]); got != sent[i] {
					s.Fail("DropExcess returns %s instead of the most recent message %s", got, sent[i])
				}
				taken = i + 1
			}
		}
		if taken == len(sent) {
			if rd.take() {
				s.Fail("DropExcess repeats a message")
			}
		}
		s.P.CloseChan(in)
		s.P.Settle()
		for rd.take() {
		}
		if !rd.Closed {
			s.Fail("DropExcess doesn't close its output when the input is closed")
		}
	})
}

func c09Backpressure(c *Ctx) {
	for _, what := range []string{"Value", "Collection"} {
		c.Explore("backpressure", what+".Pull with backpressure by a reader that pauses", c.Method(resPkg, what, "Pull").Pos(), c04Cfg(c), func(s *Scn) {
			var rd *stepReader
			var write func(i int) string
			var o = subOpts{backpressure: true, updatesOnly: s.Bool("updates only")}
			first := 0
			if what == "Value" {
				r := newResValue(s, false, true)
				rd = s.stepReader(r.pull(s.Ctx("ctx"), o.build(s)...))
				write = func(i int) string {
					_, content := r.lop("set", fmt.Sprint("w", i)).run()
					return content
				}
			} else {
				r := newResColl(s, false)
				r.write(true, strID("x"), &wopts{})
				rd = s.stepReader(r.pull(s.Ctx("ctx"), o.build(s)...))
				write = func(i int) string {
					o := r.lop("upsert", []string{"x", "y"}[i%2], fmt.Sprint("w", i))
					_, content := o.run()
					return content
				}
			}
			if !o.updatesOnly {
				first = 1
			}
			const n = 4
			done := 0
			var want []string
			s.P.Spawn("writer", func() {
				for i := 0; i < n; i++ {
					want = append(want, write(i))
					done++
				}
			})
			s.P.Settle()
			if done == n {
				s.Fail("%d writes complete although the subscriber with backpressure receives nothing", n)
			}
			max := done
			for i := 0; rd.take(); i++ {
				if done > max+1 {
					s.Fail("%d writes complete after receiving one change", done-max)
				}
				max = done
			}
			if done != n {
				s.Fail("only %d of %d writes complete although the subscriber receives everything", done, n)
			}
			var got []string
			for _, e := range rd.Events[min(first, len(rd.Events)):] {
				if what == "Value" {
					got = append(got, s.Content(s.Field(e, "Value")))
				} else {
					got = append(got, s.Content(s.Field(e, "NewValue")))
				}
			}
			if g, w := strings.Join(got, " | "), strings.Join(want, " | "); g != w {
				s.Fail("a subscriber with backpressure (%s) receives [%s] instead of [%s]", o, g, w)
			}
		})
	}
}

func c09Timeout(c *Ctx) {
	set := c.Method(resPkg, "Value", "Set")
	cfg := func() *absint.Config {
		cfg := c04Cfg(c)
		cfg.NoTimers = false
		return cfg
	}
	fired := func(s *Scn, after int) []string {
		var r []string
		for _, d := range s.P.TimersFired[after:] {
			r = append(r, absint.Key(s.P.Resolve(d)))
		}
		return r
	}
	c.Explore("send-timeout", "Value.Set with an idle subscriber", set.Pos(), cfg(), func(s *Scn) {
		r := newResValue(s, false, s.Bool("initial value"))
		o := subOpts{backpressure: true, updatesOnly: s.Bool("updates only")}
		ctx := s.Ctx("ctx")
		rd := s.stepReader(r.pull(ctx, o.build(s)...))
		failed := false
		for i := 0; i < 4; i++ {
			msg := s.Msg(fmt.Sprint("written", i))
			n := len(s.P.TimersFired)
			ret := s.M(r.v, resPkg, "Value", "Set", msg)
			code := s.Code(ret[1])
			f := fired(s, n)
			if code == "OK" {
				if len(f) != 0 {
					s.Fail("Value.Set succeeds after waiting for %s ns", strings.Join(f, ", "))
				}
				continue
			}
			failed = true
			if len(f) == 0 || f[len(f)-1] != "5000000000" {
				s.Fail("Value.Set fails after waiting for %v ns instead of 5 s", f)
			}
		}
		if !failed {
			s.Fail("Value.Set never reports that a subscriber doesn't receive")
		}
		if s.Bool("the subscriber leaves") {
			s.P.CancelCtx(ctx)
		} else {
			for rd.take() {
			}
		}
		n := len(s.P.TimersFired)
		msg := s.Msg("afterwards")
		ret := s.M(r.v, resPkg, "Value", "Set", msg)
		if code := s.Code(ret[1]); code != "OK" || len(fired(s, n)) != 0 {
			s.Fail("Value.Set reports %s after waiting for %v ns although there's nobody to wait for", code, fired(s, n))
		}
	})
	c.Explore("send-timeout", "two Value.Set with an idle subscriber", set.Pos(), cfg(), func(s *Scn) {
		r := newResValue(s, false, true)
		o := subOpts{backpressure: true}
		s.stepReader(r.pull(s.Ctx("ctx"), o.build(s)...))
		codes := map[int]string{}
		for i := 0; i < 3; i++ {
			s.P.Spawn(fmt.Sprint("w", i), func() {
				ret := s.M(r.v, resPkg, "Value", "Set", s.Msg(fmt.Sprint("written", i)))
				codes[i] = s.Code(ret[1])
			})
		}
		s.P.Settle()
		for s.P.FireTimer() {
			s.P.Settle()
		}
		for i := 0; i < 3; i++ {
			if codes[i] == "" {
				s.Fail("Value.Set hangs when a subscriber doesn't receive")
			}
		}
		if codes[0] == "OK" && codes[1] == "OK" && codes[2] == "OK" {
			s.Fail("Value.Set never reports that a subscriber doesn't receive")
		}
	})
}
