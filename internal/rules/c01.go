package rules

import (
	"fmt"
	"go/token"
	"strings"

	"scverify/internal/absint"
)

func init() {
	register("C01", "value-register", "Value.Get/Set against a register, for every combination of write options", c01Value)
	register("C01", "collection-map", "Collection.Get/List/Add/Update/Delete against a map, for every combination of write options", c01Collection)
	register("C01", "collection-generated-ids", "Generated ids are non-empty, unused, reported once and usable", c01GenIDs)
	register("C01", "collection-sequence", "Sequences of operations against a map", c01Sequences)
}

func timeOf(s *Scn, name string) Val {
	return s.P.NewSym(name, s.C.ExtType("time", "Time"))
}

func resCfg(c *Ctx) *absint.Config {
	return &absint.Config{Threads: true, SelectFirst: true, NoTimers: true, Hooks: resHooks(c), MaxLoop: 12, MaxSteps: 400000}
}

// refWrite is what a write of src does to a message with the given content, "" for none.
type refWrite struct {
	code    string
	content string
	checked bool
}

// refChange is the reference for preconditions, interceptors and masks.
func refChange(s *Scn, old, src string, w *wopts, upd Val, prefix string) refWrite {
	if w.expectedValue != nil && !s.P.EqualContent(old, s.Content(w.expectedValue)) {
		return refWrite{code: "FailedPrecondition"}
	}
	if w.check && !s.P.ChooseBool("in:"+prefix+"check("+old+")") {
		return refWrite{code: "DataLoss"}
	}
	if w.before {
		src = prefix + "before(" + old + " ; " + src + ")"
	}
	dst := old
	if dst == "nil" {
		dst = "zero"
	}
	n := mergedTerm(s.P, upd, dst, src)
	if w.after {
		n = prefix + "after(" + old + " ; " + n + ")"
	}
	return refWrite{code: "OK", content: n}
}

// validChoice decides whether an updater accepts the write.
func validChoice(s *Scn, upd Val) bool {
	return s.P.ChooseBool("in:valid " + absint.DeepKey(upd))
}

// resValue is a Value being checked against a register.
type resValue struct {
	s        *Scn
	v        Val
	content  string
	time     Val // stored change time, nil if not known
	writable Val
	n        int
}

func newResValue(s *Scn, writable, initial bool, more ...Val) *resValue {
	r := &resValue{s: s, content: "nil"}
	opts := append([]Val{s.F(resPkg, "WithClock", s.clock())}, more...)
	if writable {
		r.writable = s.Mask("writable")
		opts = append(opts, s.F(resPkg, "WithWritableFields", r.writable))
	}
	if initial {
		m := s.Msg("initial")
		r.content = s.Content(m)
		opts = append(opts, s.F(resPkg, "WithInitialValue", m))
	}
	n := len(s.nows())
	r.v = s.F(resPkg, "NewValue", opts...)
	if ns := s.nows(); len(ns) > n {
		r.time = ns[len(ns)-1]
	}
	return r
}

// nows are the results of asking the clock for the time.
func (s *Scn) nows() []Val {
	var r []Val
	for _, e := range s.P.Events {
		if e.Kind == "call" && strings.HasSuffix(e.Name, "Clock).Now") {
			r = append(r, e.Res)
		}
	}
	return r
}

func (r *resValue) get() string { return r.s.Content(r.s.M(r.v, resPkg, "Value", "Get")[0]) }

func (r *resValue) pull(ctx Val, opts ...Val) Val {
	return r.s.M(r.v, resPkg, "Value", "Pull", append([]Val{ctx}, opts...)...)[0]
}

// set writes a message and checks the result against the register.
func (r *resValue) set(w *wopts) (ok bool) {
	s := r.s
	r.n++
	prefix := fmt.Sprint("w", r.n, ".")
	msg := s.Msg(prefix + "written")
	l := &wlog{}
	opts := w.build(s, l, prefix)
	upd := w.updater(s, w.writableOf(s, r.writable))
	src := s.Content(msg)
	old := r.content
	nn := len(s.nows())
	ret := s.M(r.v, resPkg, "Value", "Set", append([]Val{msg}, opts...)...)
	ref := refWrite{code: "InvalidArgument"}
	if validChoice(s, upd) {
		ref = refChange(s, old, src, w, upd, prefix)
	}
	if code := s.Code(ret[1]); code != ref.code {
		s.Fail("Value.Set returns error %s instead of %s", code, ref.code)
	}
	if ref.code == "OK" {
		if c := s.Content(ret[0]); c != ref.content {
			s.Fail("Value.Set returns %s instead of %s", c, ref.content)
		}
		r.content = ref.content
		r.time = w.writeTime
		if r.time == nil {
			ns := s.nows()[nn:]
			if len(ns) == 0 {
				s.Fail("Value.Set doesn't ask the clock for the time of the write")
			} else {
				r.time = ns[len(ns)-1]
			}
		}
	}
	l.verify(s, "Value.Set", w, ref, old)
	if c := r.get(); c != r.content {
		s.Fail("after Value.Set (%s) Get returns %s instead of %s", ref.code, c, r.content)
	}
	return ref.code == "OK"
}

// verify checks the calls made to callbacks.
func (l *wlog) verify(s *Scn, what string, w *wopts, ref refWrite, old string) {
	okN := 0
	if ref.code == "OK" {
		okN = 1
	}
	if w.before && len(l.befores) != okN {
		s.Fail("%s (%s) calls the before interceptor %d times", what, ref.code, len(l.befores))
	}
	if w.after && len(l.afters) != okN {
		s.Fail("%s (%s) calls the after interceptor %d times", what, ref.code, len(l.afters))
	}
	if w.check && ref.code == "OK" && len(l.checks) == 0 {
		s.Fail("%s succeeds without calling the expected check", what)
	}
}

// writableOf are the fields that may be written.
func (w *wopts) writableOf(s *Scn, writable Val) Val {
	if writable == nil || w.allWritable {
		return nil
	}
	if w.moreWritable != nil {
		return unionMasks(s.P, []Val{writable, w.moreWritable}, writable.(*absint.Sym).T)
	}
	return writable
}

func c01Value(c *Ctx) {
	set := c.Method(resPkg, "Value", "Set")
	events := func(s *Scn, rd *Reader, n int, what string) {
		s.P.Settle()
		if len(rd.Events) != n {
			s.Fail("%s emits %d changes instead of %d", what, len(rd.Events), n)
		}
	}
	c.Explore("value-register", "Value.Set: preconditions and interceptors", set.Pos(), resCfg(c), func(s *Scn) {
		w := &wopts{}
		r := newResValue(s, false, s.Bool("initial value"))
		if s.Bool("expected value") {
			w.expectedValue = s.Msg("expected")
		}
		w.check = s.Bool("expected check")
		w.before = s.Bool("before")
		w.after = s.Bool("after")
		rd := s.Read(r.pull(s.Ctx("ctx"), s.backpressure(), s.updatesOnly()))
		if r.set(w) {
			events(s, rd, 1, "a successful Value.Set")
		} else {
			events(s, rd, 0, "a failed Value.Set")
		}
	})
	c.Explore("value-register", "Value.Set: masks and write time", set.Pos(), resCfg(c), func(s *Scn) {
		w := &wopts{}
		r := newResValue(s, s.Bool("writable"), true)
		if s.Bool("update mask") {
			w.updateMask = s.Mask("updateMask")
		}
		if s.Bool("reset mask") {
			w.resetMask = s.Mask("resetMask")
		}
		if s.Bool("more writable") {
			w.moreWritable = s.Mask("moreWritable")
		}
		if s.Bool("write time") {
			w.writeTime = timeOf(s, "writeTime")
		}
		w.allWritable = s.Bool("all writable")
		r.set(w)
	})
	c.Explore("value-register", "Value.Set: twice", set.Pos(), resCfg(c), func(s *Scn) {
		r := newResValue(s, false, s.Bool("initial value"))
		rd := s.Read(r.pull(s.Ctx("ctx"), s.backpressure(), s.updatesOnly()))
		n := 0
		for i := 0; i < 2; i++ {
			w := &wopts{}
			if s.Bool(fmt.Sprint("expected value ", i)) {
				w.expectedValue = s.Msg(fmt.Sprint("expected", i))
			}
			w.check = s.Bool(fmt.Sprint("check ", i))
			w.after = s.Bool(fmt.Sprint("after ", i))
			if r.set(w) {
				n++
			}
		}
		events(s, rd, n, fmt.Sprint(n, " successful calls to Value.Set"))
	})
	c.Explore("value-register", "Value.Get: read mask", c.Method(resPkg, "Value", "Get").Pos(), resCfg(c), func(s *Scn) {
		r := newResValue(s, false, s.Bool("initial value"))
		mask := s.Mask("readMask")
		got := s.Content(s.M(r.v, resPkg, "Value", "Get", s.F(resPkg, "WithReadMask", mask))[0])
		if want := projTerm(mask, r.content); got != want {
			s.Fail("Value.Get with a read mask returns %s instead of %s", got, want)
		}
		if got := r.get(); got != r.content {
			s.Fail("Value.Get after a Get with a read mask returns %s instead of %s", got, r.content)
		}
	})
}

func (s *Scn) backpressure() Val { return s.F(resPkg, "WithBackpressure", absint.MkBool(true)) }
func (s *Scn) updatesOnly() Val  { return s.F(resPkg, "WithUpdatesOnly", absint.MkBool(true)) }

// resColl is a Collection being checked against a map.
type resColl struct {
	s        *Scn
	v        Val
	items    []refItem
	canon    bool
	writable Val
	n        int
	lastID   Val
	reported Val
	events   []refEvent
}

type refItem struct {
	id      Val
	content string
	time    Val
}

type refEvent struct {
	id       string
	kind     string
	old, new string
	time     Val
}

func newResColl(s *Scn, canon bool, opts ...Val) *resColl {
	r := &resColl{s: s, canon: canon}
	opts = append([]Val{s.F(resPkg, "WithClock", s.clock()), s.F(resPkg, "WithRNG", s.P.NonNilSym("rng", s.C.ExtType("io", "Reader")))}, opts...)
	if canon {
		opts = append(opts, s.F(resPkg, "WithIDInterceptor", s.Native("idInterceptor", func(args []Val) Val { return canonID(s, args[0]) })))
	}
	r.v = s.F(resPkg, "NewCollection", opts...)
	return r
}

func canonID(s *Scn, id Val) Val {
	id = s.P.Resolve(id)
	if x, ok := absint.StringConst(id); ok {
		return absint.MkString("canon-" + x)
	}
	return s.P.Term("canon", id.(*absint.Sym).T, id)
}

func (r *resColl) key(id Val) Val {
	if r.canon {
		return canonID(r.s, id)
	}
	return id
}

func (r *resColl) find(id Val) *refItem {
	for i := range r.items {
		if r.s.P.Equal(r.items[i].id, id) {
			return &r.items[i]
		}
	}
	return nil
}

func (r *resColl) put(id Val, content string, t Val) {
	if it := r.find(id); it != nil {
		it.content, it.time = content, t
		return
	}
	i := 0
	for i < len(r.items) && r.s.P.Less(r.items[i].id, id) {
		i++
	}
	r.items = append(r.items[:i], append([]refItem{{id, content, t}}, r.items[i:]...)...)
}

func (r *resColl) del(id Val) {
	for i := range r.items {
		if r.s.P.Equal(r.items[i].id, id) {
			r.items = append(append([]refItem{}, r.items[:i]...), r.items[i+1:]...)
			return
		}
	}
}

func (r *resColl) pull(ctx Val, opts ...Val) Val {
	return r.s.M(r.v, resPkg, "Collection", "Pull", append([]Val{ctx}, opts...)...)[0]
}

// list returns the contents of what List returns.
func (r *resColl) list(opts ...Val) []string {
	return r.s.contents(r.s.M(r.v, resPkg, "Collection", "List", opts...)[0])
}

func (s *Scn) contents(v Val) []string {
	sl, ok := s.P.SliceOf(v)
	if !ok {
		s.P.Stuck("list of %T", v)
	}
	var out []string
	for i := sl.Lo; i < sl.Hi; i++ {
		out = append(out, s.Content(sl.Arr.Cells[i].Load()))
	}
	return out
}

func (r *resColl) want() []string {
	var out []string
	for _, it := range r.items {
		out = append(out, it.content)
	}
	return out
}

// check compares the whole contents.
func (r *resColl) check(what string) {
	got, want := strings.Join(r.list(), " | "), strings.Join(r.want(), " | ")
	if got != want {
		r.s.Fail("after %s List returns [%s] instead of [%s]", what, got, want)
	}
}

// getID checks Get.
func (r *resColl) getID(what string, id Val) {
	s := r.s
	ret := s.M(r.v, resPkg, "Collection", "Get", id)
	ok := s.P.Truth(ret[1])
	it := r.find(r.key(id))
	if ok != (it != nil) {
		s.Fail("after %s Get of an id reports %v instead of %v", what, ok, it != nil)
		return
	}
	if c := s.Content(ret[0]); ok && c != it.content {
		s.Fail("after %s Get returns %s instead of %s", what, c, it.content)
	} else if !ok && c != "nil" {
		s.Fail("after %s Get of an absent id returns %s", what, c)
	}
}

// write calls Update or Add.
func (r *resColl) write(add bool, id Val, w *wopts) string {
	s := r.s
	r.n++
	prefix := fmt.Sprint("w", r.n, ".")
	msg := s.Msg(prefix + "written")
	name := "Collection.Update"
	l := &wlog{}
	opts := w.build(s, l, prefix)
	upd := w.updater(s, w.writableOf(s, r.writable))
	src := s.Content(msg)
	nn := len(s.nows())
	var ret []Val
	ww := *w
	if add {
		name = "Collection.Add"
		ww.expectAbsent, ww.createIfAbsent = true, true
		ret = s.M(r.v, resPkg, "Collection", "Add", append([]Val{id, msg}, opts...)...)
	} else {
		ret = s.M(r.v, resPkg, "Collection", "Update", append([]Val{id, msg}, opts...)...)
	}
	s.P.Settle()
	code := s.Code(ret[1])

	// the reference
	gen := w.genID && absint.Key(id) == `""`
	var ref refWrite
	created := false
	old := "nil"
	var key Val
	switch {
	case !validChoice(s, upd):
		ref.code = "InvalidArgument"
	default:
		if gen {
			if code == "Aborted" && len(l.ids) == 0 {
				// gave up looking for an id
				ref.code = "Aborted"
				break
			}
			key = r.generatedID(l, w, name, code)
			if key == nil {
				return code
			}
		} else {
			key = r.key(id)
		}
		it := r.find(key)
		switch {
		case it != nil && ww.expectAbsent:
			ref.code = "AlreadyExists"
		case it == nil && !ww.createIfAbsent:
			ref.code = "NotFound"
		case it != nil:
			old = it.content
			ref = refChange(s, it.content, src, w, upd, prefix)
		default:
			created = true
			ref = refChange(s, "zero", src, w, upd, prefix)
		}
	}
	if code != ref.code {
		s.Fail("%s returns error %s instead of %s", name, code, ref.code)
	}
	if ref.code == "OK" {
		if c := s.Content(ret[0]); c != ref.content {
			s.Fail("%s returns %s instead of %s", name, c, ref.content)
		}
		t := w.writeTime
		if t == nil {
			if ns := s.nows()[nn:]; len(ns) == 0 {
				s.Fail("%s doesn't ask the clock for the time of the write", name)
			} else {
				t = ns[len(ns)-1]
			}
		}
		r.put(key, ref.content, t)
		kind := "UPDATE"
		if created {
			kind = "ADD"
		}
		r.events = append(r.events, refEvent{absint.Key(s.P.Resolve(key)), kind, old, ref.content, t})
	} else if ret[0] != nil && !s.P.IsNil(ret[0]) {
		s.Fail("%s returns a message with error %s", name, code)
	}
	l.verify(s, name, w, ref, old)
	if w.createdCb {
		want := 0
		if ref.code == "OK" && created {
			want = 1
		}
		if len(l.created) != want {
			s.Fail("%s (%s) calls the created callback %d times instead of %d", name, ref.code, len(l.created), want)
		}
	}
	if w.idCb && !gen && len(l.ids) != 0 {
		s.Fail("%s calls the id callback without generating an id", name)
	}
	r.check(name + " (" + ref.code + ")")
	if key != nil {
		r.lastID = id
		if gen {
			r.lastID = key
		} else {
			r.getID(name, id)
		}
	}
	return ref.code
}

// generatedID works out the key a generated id is stored with.
func (r *resColl) generatedID(l *wlog, w *wopts, name, code string) Val {
	s := r.s
	if w.idCb {
		if len(l.ids) != 1 {
			s.Fail("%s (%s) calls the id callback %d times for a generated id", name, code, len(l.ids))
			return nil
		}
	}
	if len(l.idVals) == 1 {
		id := l.idVals[0]
		if s.P.Equal(id, absint.MkString("")) {
			s.Fail("%s generates an empty id", name)
		}
		if it := r.find(r.key(id)); it != nil {
			s.Fail("%s generates an id that is in use", name)
		}
		r.reported = id
		return r.key(id)
	}
	return nil
}

func (r *resColl) delete(id Val, w *wopts) string {
	s := r.s
	r.n++
	prefix := fmt.Sprint("w", r.n, ".")
	l := &wlog{}
	opts := w.build(s, l, prefix)
	nn := len(s.nows())
	ret := s.M(r.v, resPkg, "Collection", "Delete", append([]Val{id}, opts...)...)
	s.P.Settle()
	key := r.key(id)
	it := r.find(key)
	want, wantMsg := "OK", "nil"
	if it == nil {
		if !w.allowMissing {
			want = "NotFound"
		}
	} else {
		wantMsg = it.content
		// either precondition may be reported when both fail
		var bad []string
		if w.check && !s.P.ChooseBool("in:"+prefix+"check("+it.content+")") {
			bad = append(bad, "DataLoss")
		} else if w.expectedValue != nil && !s.P.EqualContent(it.content, s.Content(w.expectedValue)) {
			bad = append(bad, "FailedPrecondition")
		}
		if len(bad) > 0 {
			want = bad[0]
		}
	}
	code := s.Code(ret[1])
	if code != want {
		s.Fail("Collection.Delete returns error %s instead of %s", code, want)
	}
	if c := s.Content(ret[0]); want == "OK" && c != wantMsg {
		s.Fail("Collection.Delete returns %s instead of %s", c, wantMsg)
	}
	if want == "OK" && it != nil {
		t := w.writeTime
		if t == nil {
			if ns := s.nows()[nn:]; len(ns) == 0 {
				s.Fail("Collection.Delete doesn't ask the clock for the time of the write")
			} else {
				t = ns[len(ns)-1]
			}
		}
		r.events = append(r.events, refEvent{absint.Key(s.P.Resolve(key)), "REMOVE", it.content, "nil", t})
		r.del(key)
	}
	r.check("Collection.Delete (" + want + ")")
	r.getID("Collection.Delete", id)
	return want
}

func strID(x string) Val { return absint.MkString(x) }

// seedColl adds k1.
func seedColl(s *Scn, r *resColl) {
	r.write(true, strID("k1"), &wopts{})
}

// onlyValid makes every mask valid.
func onlyValid(cfg *absint.Config) *absint.Config {
	old := cfg.Oracle
	cfg.Oracle = func(p *absint.Path, key string, n int) (int, bool) {
		if strings.HasPrefix(key, "in:valid ") {
			return 0, true
		}
		if old != nil {
			return old(p, key, n)
		}
		return 0, false
	}
	return cfg
}

func (r *resColl) countEvents(rd *Reader, skip int, what string) {
	r.s.P.Settle()
	if n := len(rd.Events); n != len(r.events)-skip {
		r.s.Fail("%s emits %d changes instead of %d", what, n, len(r.events)-skip)
	}
}

func c01Collection(c *Ctx) {
	upd := c.Method(resPkg, "Collection", "Update")
	for _, canon := range []bool{false, true} {
		suffix := ""
		if canon {
			suffix = " with an id interceptor"
		}
		for _, k := range []string{"k1", "k2"} {
			state := "an existing item"
			if k == "k2" {
				state = "an absent item"
			}
			c.Explore("collection-map", "Collection.Update of "+state+suffix, upd.Pos(), onlyValid(resCfg(c)), func(s *Scn) {
				r := newResColl(s, canon)
				seedColl(s, r)
				w := &wopts{}
				w.expectAbsent = s.Bool("expect absent")
				w.createIfAbsent = s.Bool("create if absent")
				w.createdCb = true
				w.idCb = true
				w.genID = s.Bool("gen id")
				if s.Bool("expected value") {
					w.expectedValue = s.Msg("expected")
				}
				w.check = s.Bool("expected check")
				w.before = s.Bool("before")
				w.after = s.Bool("after")
				w.allowMissing = !w.after
				rd := s.Read(r.pull(s.Ctx("ctx"), s.backpressure(), s.updatesOnly()))
				r.write(false, strID(k), w)
				r.countEvents(rd, 1, "Collection.Update")
			})
			c.Explore("collection-map", "Collection.Add of "+state+suffix, c.Method(resPkg, "Collection", "Add").Pos(), onlyValid(resCfg(c)), func(s *Scn) {
				r := newResColl(s, canon)
				seedColl(s, r)
				w := &wopts{createdCb: true, idCb: true}
				w.genID = s.Bool("gen id")
				w.check = s.Bool("expected check")
				w.after = s.Bool("after")
				rd := s.Read(r.pull(s.Ctx("ctx"), s.backpressure(), s.updatesOnly()))
				r.write(true, strID(k), w)
				r.countEvents(rd, 1, "Collection.Add")
			})
			c.Explore("collection-map", "Collection.Delete of "+state+suffix, c.Method(resPkg, "Collection", "Delete").Pos(), onlyValid(resCfg(c)), func(s *Scn) {
				r := newResColl(s, canon)
				seedColl(s, r)
				if s.Bool("two items") {
					r.write(true, strID("k0"), &wopts{})
				}
				w := &wopts{}
				if s.Bool("expected value") {
					w.expectedValue = s.Msg("expected")
				}
				w.check = s.Bool("expected check")
				w.allowMissing = s.Bool("allow missing")
				if s.Bool("write time") {
					w.writeTime = timeOf(s, "writeTime")
				}
				rd := s.Read(r.pull(s.Ctx("ctx"), s.backpressure(), s.updatesOnly()))
				n := len(r.events)
				r.delete(strID(k), w)
				r.countEvents(rd, n, "Collection.Delete")
			})
		}
	}
	c.Explore("collection-map", "Collection.Update: masks and write time", upd.Pos(), resCfg(c), func(s *Scn) {
		var opts []Val
		var writable Val
		if s.Bool("writable") {
			writable = s.Mask("writable")
			opts = append(opts, s.F(resPkg, "WithWritableFields", writable))
		}
		rec := s.Msg("record")
		opts = append(opts, s.F(resPkg, "WithInitialRecord", strID("k1"), rec))
		r := newResColl(s, false, opts...)
		r.writable = writable
		r.items = []refItem{{strID("k1"), s.Content(rec), nil}}
		r.check("creating a collection with an initial record")
		w := &wopts{createIfAbsent: true}
		if s.Bool("update mask") {
			w.updateMask = s.Mask("updateMask")
		}
		if s.Bool("reset mask") {
			w.resetMask = s.Mask("resetMask")
		}
		if s.Bool("more writable") {
			w.moreWritable = s.Mask("moreWritable")
		}
		if s.Bool("write time") {
			w.writeTime = timeOf(s, "writeTime")
		}
		w.allWritable = s.Bool("all writable")
		rd := s.Read(r.pull(s.Ctx("ctx"), s.backpressure(), s.updatesOnly()))
		r.write(false, strID([]string{"k1", "k2"}[s.Pick("id", 2)]), w)
		r.countEvents(rd, 0, "Collection.Update")
	})
	c.Explore("collection-map", "Collection.List: sorted by id and masked", c.Method(resPkg, "Collection", "List").Pos(), onlyValid(resCfg(c)), func(s *Scn) {
		r := newResColl(s, false)
		strT := absint.MkString("").T
		for i := 0; i < 3; i++ {
			r.write(true, s.P.NewSym(fmt.Sprint("id", i), strT), &wopts{})
		}
		mask := s.Mask("readMask")
		got := r.list(s.F(resPkg, "WithReadMask", mask))
		var want []string
		for _, it := range r.items {
			want = append(want, projTerm(mask, it.content))
		}
		if g, w := strings.Join(got, " | "), strings.Join(want, " | "); g != w {
			s.Fail("Collection.List with a read mask returns [%s] instead of [%s]", g, w)
		}
		ret := s.M(r.v, resPkg, "Collection", "Get", s.P.NewSym("id0", strT), s.F(resPkg, "WithReadMask", mask))
		if it := r.find(s.P.NewSym("id0", strT)); it != nil {
			if g, w := s.Content(ret[0]), projTerm(mask, it.content); g != w {
				s.Fail("Collection.Get with a read mask returns %s instead of %s", g, w)
			}
		}
		r.check("reading with a mask")
	})
}

func c01GenIDs(c *Ctx) {
	for _, add := range []bool{false, true} {
		for _, canon := range []bool{false, true} {
			name := "Collection.Update"
			if add {
				name = "Collection.Add"
			}
			if canon {
				name += " with an id interceptor"
			}
			cfg := onlyValid(resCfg(c))
			cfg.MaxLoop = 4
			c.Explore("collection-generated-ids", name, token.NoPos, cfg, func(s *Scn) {
				r := newResColl(s, canon)
				if s.Bool("another item") {
					seedColl(s, r)
				}
				skip := len(r.events)
				w := &wopts{genID: true, idCb: true, createdCb: true}
				w.createIfAbsent = add || s.Bool("create if absent")
				w.check = s.Bool("expected check")
				w.expectAbsent = s.Bool("expect absent")
				rd := s.Read(r.pull(s.Ctx("ctx"), s.backpressure(), s.updatesOnly()))
				if r.write(add, strID(""), w) == "OK" {
					s.P.Settle()
					if len(rd.Events) == 1 {
						if id := s.Field(rd.Events[0], "Id"); !s.P.Equal(id, r.lastID) {
							s.Fail("the change of an item with a generated id has another id: %s instead of %s", absint.Key(id), absint.Key(r.lastID))
						}
					}
					// usable afterwards
					id := r.genID()
					r.getID("using a generated id", id)
					if s.Bool("update again") {
						r.write(false, id, &wopts{})
					}
					r.delete(id, &wopts{})
					return
				}
				r.countEvents(rd, skip, "a failed "+name)
			})
		}
	}
	gen := c.Fn(resPkg, "GenerateUniqueId")
	cfg := resCfg(c)
	cfg.MaxLoop = 4
	c.Explore("collection-generated-ids", "GenerateUniqueId", gen.Pos(), cfg, func(s *Scn) {
		rng := s.P.NonNilSym("rng", s.C.ExtType("io", "Reader"))
		asked := map[string]bool{}
		ret := s.Call(gen, rng, s.Native("exists", func(args []Val) Val {
			k := absint.Key(s.P.Resolve(args[0]))
			b := s.P.ChooseBool("in:exists(" + k + ")")
			asked[k] = b
			return absint.MkBool(b)
		}))
		if s.Code(ret[1]) != "OK" {
			return
		}
		k := absint.Key(s.P.Resolve(ret[0]))
		if exists, ok := asked[k]; !ok || exists {
			s.Fail("GenerateUniqueId returns an id that isn't known to be unused (asked %v)", ok)
		}
		if s.P.Equal(ret[0], absint.MkString("")) {
			s.Fail("GenerateUniqueId returns an empty id")
		}
	})
	cfg2 := resCfg(c)
	cfg2.MaxLoop = 40
	cfg2.Oracle = func(p *absint.Path, key string, n int) (int, bool) {
		if strings.HasPrefix(key, "rel:") {
			return 1, true // never empty
		}
		return 0, false
	}
	c.Explore("collection-generated-ids", "GenerateUniqueId when every id exists", gen.Pos(), cfg2, func(s *Scn) {
		rng := s.P.NonNilSym("rng", s.C.ExtType("io", "Reader"))
		ret := s.Call(gen, rng, s.Native("exists", func(args []Val) Val { return absint.MkBool(true) }))
		if s.Code(ret[1]) == "OK" {
			s.Fail("GenerateUniqueId succeeds although every id exists")
		}
	})
}

// genID is the id reported for the last generated one.
func (r *resColl) genID() Val { return r.reported }

func c01Sequences(c *Ctx) {
	n := 3
	if c.Tier == "thorough" {
		n = 4
	}
	for _, canon := range []bool{false, true} {
		name := fmt.Sprintf("sequences of %d operations", n)
		if canon {
			name += " with an id interceptor"
		}
		c.Explore("collection-sequence", name, c.Method(resPkg, "Collection", "Update").Pos(), onlyValid(resCfg(c)), func(s *Scn) {
			r := newResColl(s, canon)
			rd := s.Read(r.pull(s.Ctx("ctx"), s.backpressure(), s.updatesOnly()))
			ids := []string{"b", "a"}
			for i := 0; i < n; i++ {
				op := s.Pick(fmt.Sprint("op", i), 5)
				id := strID(ids[s.Pick(fmt.Sprint("id", i), 2)])
				switch op {
				case 0:
					r.write(true, id, &wopts{})
				case 1:
					r.write(false, id, &wopts{})
				case 2:
					r.write(false, id, &wopts{createIfAbsent: true, after: true, createdCb: true})
				case 3:
					r.delete(id, &wopts{})
				case 4:
					r.delete(id, &wopts{allowMissing: true, expectedValue: nil})
				}
			}
			r.countEvents(rd, 0, "a sequence of operations")
			for _, id := range ids {
				r.getID("a sequence of operations", strID(id))
			}
		})
	}
}
