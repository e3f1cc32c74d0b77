package rules

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"scverify/internal/absint"
)

func init() {
	register("C02", "value-linearizable", "Concurrent writes of a Value are explained by some order of one write at a time", c02Value)
	register("C02", "collection-linearizable", "Concurrent writes of a Collection are explained by some order of one write at a time", c02Collection)
}

// lop is an operation of a concurrent history.
type lop struct {
	name       string
	run        func() (code, content string) // performs the operation
	ref        func(st lstate) (code, content string)
	id         string // what it's about, for deciding which operations race with each other
	start, end int
	code       string
	content    string
	ended      bool
}

// lstate is the state of the reference: content per id.
type lstate map[string]string

func (st lstate) clone() lstate {
	n := lstate{}
	for k, v := range st {
		n[k] = v
	}
	return n
}

func (st lstate) String() string {
	var r []string
	for k, v := range st {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return "{" + strings.Join(r, ", ") + "}"
}

// lostRace are the codes of calls that have no effect because of a race.
var lostRace = map[string]bool{"Aborted": true, "Unavailable": true}

// history runs the operations at the same time.
func (s *Scn) history(ops []*lop) {
	tick := 0
	for _, o := range ops {
		o := o
		s.P.Spawn(o.name, func() {
			tick++
			o.start = tick
			o.code, o.content = o.run()
			tick++
			o.end = tick
			o.ended = true
		})
	}
	s.P.Settle()
	for _, o := range ops {
		if !o.ended {
			s.Stop("%s doesn't return when racing with %s", o.name, others(ops, o))
		}
	}
}

func others(ops []*lop, o *lop) string {
	var r []string
	for _, x := range ops {
		if x != o {
			r = append(r, x.name)
		}
	}
	return strings.Join(r, " and ")
}

// linearize looks for an order of the operations that explains what they returned and the final state.
func (s *Scn) linearize(what string, ops []*lop, initial, final lstate) {
	for _, o := range ops {
		if !lostRace[o.code] {
			continue
		}
		ok := false
		for _, x := range ops {
			if x != o && x.id == o.id && x.code == "OK" && x.end > o.start && x.start < o.end {
				ok = true
			}
		}
		if !ok {
			s.Fail("%s reports %s although no other write of the same item succeeds at the same time", o.name, o.code)
			return
		}
	}
	var took []*lop
	for _, o := range ops {
		if !lostRace[o.code] {
			took = append(took, o)
		}
	}
	used := make([]bool, len(took))
	var try func(n int, st lstate) bool
	try = func(n int, st lstate) bool {
		if n == len(took) {
			return st.String() == final.String()
		}
		for i, o := range took {
			if used[i] {
				continue
			}
			// real time: nothing that isn't placed yet may have ended before o started
			late := false
			for j, x := range took {
				if !used[j] && j != i && x.end < o.start {
					late = true
				}
			}
			if late {
				continue
			}
			ns := st.clone()
			code, content := o.ref(ns)
			if code != o.code || content != o.content {
				continue
			}
			used[i] = true
			ok := try(n+1, ns)
			used[i] = false
			if ok {
				return true
			}
		}
		return false
	}
	if !try(0, initial.clone()) {
		var d []string
		for _, o := range ops {
			d = append(d, fmt.Sprintf("%s -> %s %s", o.name, o.code, o.content))
		}
		s.Fail("%s: no order of the calls explains their results [%s] and the final state %s", what, strings.Join(d, "; "), final)
	}
}

// distinct makes messages that were written separately different, and masks valid.
func distinct(cfg *absint.Config) *absint.Config {
	onlyValid(cfg)
	old := cfg.Oracle
	cfg.Oracle = func(p *absint.Path, key string, n int) (int, bool) {
		if strings.HasPrefix(key, "equal(") {
			return 1, true
		}
		return old(p, key, n)
	}
	return cfg
}

func concCfg(c *Ctx, preempt int) *absint.Config {
	cfg := distinct(resCfg(c))
	cfg.Preempt = preempt
	cfg.YieldAccess = true
	cfg.MaxSteps = 2000000
	return cfg
}

// writerPoints lets only the threads of the history lose control.
func writerPoints(cfg *absint.Config) *absint.Config {
	cfg.PreemptAt = func(p *absint.Path, t *absint.Thread, what string) bool {
		return strings.HasPrefix(t.Name, "w") && !strings.HasPrefix(what, "go")
	}
	return cfg
}

var valueOps = []string{"set", "cas", "check", "delta"}

// valueOp builds a write of a Value.
func (r *resValue) lop(kind, prefix string) *lop {
	s := r.s
	msg := s.Msg(prefix + "written")
	src := s.Content(msg)
	w := &wopts{}
	switch kind {
	case "cas":
		w.expectedValue = s.Msg("initial")
	case "check":
		w.check = true
	case "delta":
		w.after = true
	case "before":
		w.before = true
	}
	upd := w.updater(s, nil)
	o := &lop{name: prefix + "Value.Set(" + kind + ")", id: "v"}
	o.run = func() (string, string) {
		ret := s.M(r.v, resPkg, "Value", "Set", append([]Val{msg}, w.build(s, &wlog{}, prefix)...)...)
		code := s.Code(ret[1])
		if code != "OK" {
			return code, ""
		}
		return code, s.Content(ret[0])
	}
	o.ref = func(st lstate) (string, string) {
		ref := refChange(s, st["v"], src, w, upd, prefix)
		if ref.code != "OK" {
			return ref.code, ""
		}
		st["v"] = ref.content
		return "OK", ref.content
	}
	return o
}

// checkOracle makes checks pass for the initial value only.
func checkOracle(cfg *absint.Config) *absint.Config {
	old := cfg.Oracle
	cfg.Oracle = func(p *absint.Path, key string, n int) (int, bool) {
		if i := strings.Index(key, "check("); strings.HasPrefix(key, "in:") && i > 0 {
			if strings.Contains(key[i:], "merged") {
				return 1, true
			}
			return 0, true
		}
		return old(p, key, n)
	}
	return cfg
}

func c02Value(c *Ctx) {
	set := c.Method(resPkg, "Value", "Set")
	scen := func(kinds []string) func(s *Scn) {
		return func(s *Scn) {
			r := newResValue(s, false, true)
			rd := s.Read(r.pull(s.Ctx("ctx"), s.backpressure(), s.updatesOnly()))
			var ops []*lop
			for i, k := range kinds {
				ops = append(ops, r.lop(k, fmt.Sprintf("w%d.", i)))
			}
			initial := lstate{"v": r.content}
			s.history(ops)
			s.linearize(strings.Join(kinds, " and "), ops, initial, lstate{"v": r.get()})
			n := 0
			for _, o := range ops {
				if o.code == "OK" {
					n++
				}
			}
			if len(rd.Events) != n {
				s.Fail("%d successful concurrent writes emit %d changes", n, len(rd.Events))
			}
		}
	}
	pre := 2
	if c.Tier == "thorough" {
		pre = 3
	}
	for i, a := range valueOps {
		for _, b := range valueOps[i:] {
			c.Explore("value-linearizable", "Value.Set: "+a+" and "+b, set.Pos(), checkOracle(writerPoints(concCfg(c, pre))), scen([]string{a, b}))
		}
	}
	for _, t := range [][]string{{"delta", "delta", "delta"}, {"cas", "delta", "set"}} {
		c.Explore("value-linearizable", "Value.Set: "+strings.Join(t, " and "), set.Pos(), checkOracle(writerPoints(concCfg(c, pre))), scen(t))
	}
}

// collection operations: what with which options
var collOps = []string{"add", "update", "upsert", "cas", "check", "delta", "delete", "deleteChecked", "deleteMissing"}

func (r *resColl) lop(kind, id, prefix string) *lop {
	s := r.s
	msg := s.Msg(prefix + "written")
	src := s.Content(msg)
	w := &wopts{}
	add, del := false, false
	switch kind {
	case "add":
		add = true
		w.createdCb = true
	case "upsert":
		w.createIfAbsent = true
	case "upsertDelta":
		w.createIfAbsent, w.after = true, true
	case "cas":
		w.expectedValue = s.Msg("seed")
	case "check":
		w.check = true
	case "delta":
		w.after = true
	case "genid":
		add = true
		w.genID, w.idCb = true, true
	case "delete":
		del = true
	case "deleteChecked":
		del = true
		w.check = true
	case "deleteExpected":
		del = true
		w.expectedValue = s.Msg("seed")
	case "deleteMissing":
		del = true
		w.allowMissing = true
	}
	upd := w.updater(s, nil)
	l := &wlog{}
	o := &lop{id: id}
	if del {
		o.name = prefix + "Collection.Delete(" + kind + ")"
		o.run = func() (string, string) {
			ret := s.M(r.v, resPkg, "Collection", "Delete", append([]Val{strID(id)}, w.build(s, l, prefix)...)...)
			code := s.Code(ret[1])
			if code != "OK" {
				return code, ""
			}
			return code, s.Content(ret[0])
		}
		o.ref = func(st lstate) (string, string) {
			old, ok := st[id]
			if !ok {
				if w.allowMissing {
					return "OK", "nil"
				}
				return "NotFound", ""
			}
			if w.check && !s.P.ChooseBool("in:"+prefix+"check("+old+")") {
				return "DataLoss", ""
			}
			if w.expectedValue != nil && !s.P.EqualContent(old, s.Content(w.expectedValue)) {
				return "FailedPrecondition", ""
			}
			delete(st, id)
			return "OK", old
		}
		return o
	}
	method := "Update"
	if add {
		method = "Add"
	}
	o.name = prefix + "Collection." + method + "(" + kind + ")"
	o.run = func() (string, string) {
		ret := s.M(r.v, resPkg, "Collection", method, append([]Val{strID(id), msg}, w.build(s, l, prefix)...)...)
		code := s.Code(ret[1])
		if len(l.idVals) == 1 {
			o.id = absint.Key(s.P.Resolve(l.idVals[0]))
		}
		if code != "OK" {
			if len(l.created) > 0 {
				s.Fail("%s calls the created callback but reports %s", o.name, code)
			}
			return code, ""
		}
		return code, s.Content(ret[0])
	}
	o.ref = func(st lstate) (string, string) {
		id := id
		if w.genID {
			id = o.id
		}
		old, ok := st[id]
		switch {
		case ok && add:
			return "AlreadyExists", ""
		case !ok && !add && !w.createIfAbsent:
			return "NotFound", ""
		case !ok:
			old = "zero"
		}
		ref := refChange(s, old, src, w, upd, prefix)
		if ref.code != "OK" {
			return ref.code, ""
		}
		st[id] = ref.content
		return "OK", ref.content
	}
	return o
}

// state reads everything, by id.
func (r *resColl) state(ids []string) lstate {
	st := lstate{}
	for _, id := range ids {
		ret := r.s.M(r.v, resPkg, "Collection", "Get", strID(id))
		if r.s.P.Truth(ret[1]) {
			st[id] = r.s.Content(ret[0])
		}
	}
	return st
}

func c02Collection(c *Ctx) {
	updFn := c.Method(resPkg, "Collection", "Update")
	scen := func(kinds []string, present bool) func(s *Scn) {
		return func(s *Scn) {
			var opts []Val
			initial := lstate{}
			if present {
				m := s.Msg("seed")
				opts = append(opts, s.F(resPkg, "WithInitialRecord", strID("x"), m))
				initial["x"] = s.Content(m)
			}
			r := newResColl(s, false, opts...)
			rd := s.Read(r.pull(s.Ctx("ctx"), s.backpressure(), s.updatesOnly()))
			var ops []*lop
			for i, k := range kinds {
				ops = append(ops, r.lop(k, "x", fmt.Sprintf("w%d.", i)))
			}
			s.history(ops)
			s.linearize(strings.Join(kinds, " and "), ops, initial, r.state([]string{"x"}))
			n := 0
			for _, o := range ops {
				if o.code == "OK" && o.content != "nil" {
					n++
				}
			}
			if len(rd.Events) != n {
				s.Fail("%d successful concurrent writes emit %d changes", n, len(rd.Events))
			}
		}
	}
	pre := 2
	if c.Tier == "thorough" {
		pre = 3
	}
	for _, present := range []bool{true, false} {
		state := "an absent item"
		if present {
			state = "an existing item"
		}
		for i, a := range collOps {
			for _, b := range collOps[i:] {
				c.Explore("collection-linearizable", a+" and "+b+" of "+state, updFn.Pos(), checkOracle(writerPoints(concCfg(c, pre))), scen([]string{a, b}, present))
			}
		}
	}
	// three at once, and of different items
	triples := [][]string{
		{"delta", "delete", "add"}, {"delete", "add", "delete"}, {"upsertDelta", "upsertDelta", "delete"},
		{"deleteChecked", "delta", "delta"}, {"deleteExpected", "cas", "cas"}, {"add", "add", "delete"},
	}
	for _, t := range triples {
		for _, present := range []bool{true, false} {
			state := "an absent item"
			if present {
				state = "an existing item"
			}
			c.Explore("collection-linearizable", strings.Join(t, " and ")+" of "+state, updFn.Pos(), checkOracle(writerPoints(concCfg(c, pre))), scen(t, present))
		}
	}
	for _, t := range [][]string{{"delta", "delta"}, {"add", "delete"}, {"upsert", "delete"}, {"delete", "add"}, {"add", "add"}} {
		c.Explore("collection-linearizable", strings.Join(t, " and ")+" of different items", updFn.Pos(), checkOracle(writerPoints(concCfg(c, pre))), func(s *Scn) {
			var opts []Val
			initial := lstate{}
			ids := []string{"x", "y"}
			for i, k := range t {
				if k == "add" || k == "upsert" {
					continue
				}
				m := s.Msg("seed" + ids[i])
				opts = append(opts, s.F(resPkg, "WithInitialRecord", strID(ids[i]), m))
				initial[ids[i]] = s.Content(m)
			}
			r := newResColl(s, false, opts...)
			var ops []*lop
			for i, k := range t {
				ops = append(ops, r.lop(k, ids[i], fmt.Sprintf("w%d.", i)))
			}
			s.history(ops)
			s.linearize(strings.Join(t, " and ")+" of different items", ops, initial, r.state(ids))
		})
	}
	// generated ids
	cfg := checkOracle(writerPoints(concCfg(c, pre)))
	fewRandoms(cfg)
	c.Explore("collection-linearizable", "two adds with generated ids", updFn.Pos(), cfg, func(s *Scn) {
		r := newResColl(s, false)
		l := []*wlog{{}, {}}
		var codes [2]string
		for i := range l {
			i := i
			s.P.Spawn(fmt.Sprint("w", i), func() {
				w := &wopts{genID: true, idCb: true}
				ret := s.M(r.v, resPkg, "Collection", "Add", append([]Val{strID(""), s.Msg(fmt.Sprint("msg", i))}, w.build(s, l[i], fmt.Sprint("w", i))...)...)
				codes[i] = s.Code(ret[1])
			})
		}
		s.P.Settle()
		n := 0
		for i := range l {
			if codes[i] == "OK" {
				n++
				if len(l[i].idVals) != 1 {
					s.Fail("Collection.Add reports %d generated ids", len(l[i].idVals))
				}
			}
		}
		if got := len(r.list()); got != n {
			s.Fail("%d successful concurrent Adds with generated ids leave %d items", n, got)
		}
	})
}

// fewRandoms makes the source of randomness return one of two byte sequences each time.
func fewRandoms(cfg *absint.Config) {
	read := func(c *absint.Call) (Val, bool) {
		buf := c.Args[len(c.Args)-1]
		sl, ok := c.P.SliceOf(buf)
		if !ok {
			return nil, false
		}
		k := c.P.Choose("in:"+c.P.Fresh("which random"), 2)
		for i := sl.Lo; i < sl.Hi; i++ {
			sl.Arr.Cells[i].Set(c.P, c.P.NewSym(fmt.Sprintf("random%d.%d", k, i-sl.Lo), types.Typ[types.Byte]))
		}
		return absint.TupleV{absint.MkInt(int64(sl.Hi - sl.Lo)), absint.MkNil(errType)}, true
	}
	cfg.Hooks["iface:(io.Reader).Read"] = read
	cfg.Hooks["(*math/rand.Rand).Read"] = read
	old := cfg.Oracle
	cfg.Oracle = func(p *absint.Path, key string, n int) (int, bool) {
		if strings.HasPrefix(key, "rel:") {
			return 1, true // different
		}
		return old(p, key, n)
	}
}
