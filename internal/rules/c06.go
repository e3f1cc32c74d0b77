package rules

import (
	"strings"

	"scverify/internal/absint"
)

func init() {
	register("C06", "response-filter", "Response filters project, validate and never modify what they're given", c06Filter)
	register("C06", "resource-reads", "Reads and subscriptions of resources return the projection and leave stored values alone", c06Reads)
}

// project is the part of x the mask selects.
func (m *pm) project(x *pmsg, mask []string, loose map[string]bool, prefix string) *pmsg {
	if mask == nil {
		return m.clone(x)
	}
	out := m.newMsg(x.t, "")
	sel := nest(mask)
	for _, f := range x.t.fields {
		sub, ok := sel[f.name]
		if !ok {
			continue
		}
		v := m.field(x, f)
		if len(sub) == 0 {
			out.f[f.name] = m.cloneVal(v)
			continue
		}
		if f.kind != "message" {
			continue
		}
		loose[prefix+f.name] = true
		if m.has(v, f) {
			out.f[f.name] = &pval{set: true, m: m.project(v.m, sub, loose, prefix+f.name+".")}
		}
	}
	return out
}

func validMask(t *ptype, mask []string) bool {
	for _, p := range mask {
		if !validPath(t, p) {
			return false
		}
	}
	return true
}

// readMasks are the read masks that are interesting for a type.
func readMasks(t *ptype) [][]string {
	ls := []string{}
	var walk func(t *ptype, prefix string)
	walk = func(t *ptype, prefix string) {
		for _, f := range t.fields {
			ls = append(ls, prefix+f.name)
			if f.kind == "message" {
				walk(f.msg, prefix+f.name+".")
			}
		}
	}
	walk(t, "")
	r := subsets(ls, 2)
	// longer paths first, and paths that lead nowhere
	for i := len(r) - 1; i >= 0; i-- {
		if len(r[i]) == 2 && strings.HasPrefix(r[i][1], r[i][0]+".") {
			r = append(r, []string{r[i][1], r[i][0]})
		}
	}
	return append(r, []string{"q"}, []string{"a", "q"}, []string{"m.q"}, []string{"m.q", "m.x"}, []string{"a.q"}, []string{"b.x"}, []string{"b.x", "a"}, []string{"b.q.r"}, []string{""}, []string{"."}, []string{".a"}, []string{"a."}, []string{"m..x"}, []string{"a", "a"})
}

func c06Filter(c *Ctx) {
	for _, sh := range maskShapes(false) {
		masks := readMasks(sh.t)
		for _, meth := range []string{"FilterClone", "Filter"} {
			fn := c.Method(masksPkg, "ResponseFilter", meth)
			cfg := focusCfg(pmCfg(&absint.Config{MaxLoop: 30}), false)
			if c.Tier == "thorough" {
				cfg = pmCfg(&absint.Config{MaxLoop: 30})
			}
			c.Explore("response-filter", meth+" of "+sh.name, fn.Pos(), cfg, func(s *Scn) {
				m := s.pm()
				mask := masks[s.Pick("mask", len(masks))]
				mv := m.maskOrNil(mask)
				var opts []Val
				switch {
				case mask == nil && s.Bool("no option"):
				case mask != nil && s.Bool("as paths"):
					opts = append(opts, s.Call(c.Fn(masksPkg, "WithFieldMaskPaths"), m.pathSlice(mask))[0])
				default:
					opts = append(opts, s.F(masksPkg, "WithFieldMask", mv))
				}
				f := s.F(masksPkg, "NewResponseFilter", opts...)
				x := m.newMsg(sh.t, "old")
				s.focus(sh.t)
				x0 := m.clone(x)
				code := s.Code(s.M(f, masksPkg, "ResponseFilter", "Validate", m.val(x))[0])
				valid := validMask(sh.t, mask)
				if valid != (code == "OK") {
					s.Fail("validation of %s answers %s", maskName(mask), code)
				}
				loose := map[string]bool{}
				for i := 0; i < 2; i++ { // it can be reused
					var got *pmsg
					if meth == "Filter" {
						y := m.clone(x)
						s.M(f, masksPkg, "ResponseFilter", meth, m.val(y))
						got = y
					} else {
						got = m.msg(s.M(f, masksPkg, "ResponseFilter", meth, m.val(x))[0])
					}
					if got == nil {
						s.Stop("%s with %s returns nothing", meth, maskName(mask))
					}
					if valid {
						for _, d := range m.diff(m.project(x0, mask, loose, ""), got, loose, "") {
							s.Fail("%s with %s: %s", meth, maskName(mask), d)
						}
					}
					for _, d := range m.diff(x0, x, nil, "") {
						s.Fail("%s with %s modifies its argument: %s", meth, maskName(mask), d)
					}
				}
				if got := m.paths(mv); strings.Join(got, " ") != strings.Join(mask, " ") {
					s.Fail("%s modifies the mask %s", meth, maskName(mask))
				}
				// nothing to filter
				nilMsg := absint.MkNil(c.protoMessage())
				s.M(f, masksPkg, "ResponseFilter", meth, nilMsg)
			})
		}
	}
}

func c06Reads(c *Ctx) {
	sh := maskShapes(false)[0]
	masks := [][]string{nil, {}, {"a"}, {"m.x"}, {"m"}, {"m.n.z", "a"}, {"m.x", "m"}, {"m.n", "m.y"}, {"q"}, {"a.q"}, {"m.q"}}
	if c.Tier == "thorough" {
		masks = readMasks(sh.t)
	}
	for _, what := range []string{"Value.Get", "Collection.Get", "Collection.List", "Value.Pull", "Collection.Pull", "Collection.PullID"} {
		typ, meth := what[:strings.Index(what, ".")], what[strings.Index(what, ".")+1:]
		fn := c.Method(resPkg, typ, meth)
		for _, bp := range []bool{true, false} {
			pull := strings.HasPrefix(meth, "Pull")
			if !pull && !bp {
				continue
			}
			cfg := focusCfg(pmResCfg(c), false)
			name := what
			if !bp {
				name += " without backpressure"
			}
			c.Explore("resource-reads", name, fn.Pos(), cfg, func(s *Scn) {
				m := s.pm()
				mask := masks[s.Pick("mask", len(masks))]
				var ropts []Val
				switch {
				case mask == nil && s.Bool("no option"):
				case mask != nil && validMask(sh.t, mask) && s.Bool("as paths"):
					ropts = append(ropts, s.Call(c.Fn(resPkg, "WithReadPaths"), m.val(m.newMsg(sh.t, "")), m.pathSlice(mask))[0])
				default:
					ropts = append(ropts, s.F(resPkg, "WithReadMask", m.maskOrNil(mask)))
				}
				if pull && !bp {
					ropts = append(ropts, s.F(resPkg, "WithBackpressure", absint.MkBool(false)))
				}
				seed := m.newMsg(sh.t, "old")
				s.focus(sh.t)
				seed0 := m.clone(seed)
				opts := []Val{s.F(resPkg, "WithClock", s.clock())}
				var r Val
				if typ == "Value" {
					r = s.F(resPkg, "NewValue", append(opts, s.F(resPkg, "WithInitialValue", m.val(seed)))...)
				} else {
					r = s.F(resPkg, "NewCollection", append(opts, s.F(resPkg, "WithInitialRecord", strID("x"), m.val(seed)))...)
				}
				full := func() *pmsg {
					if typ == "Value" {
						return m.msg(s.M(r, resPkg, typ, "Get")[0])
					}
					return m.msg(s.M(r, resPkg, typ, "Get", strID("x"))[0])
				}
				valid := validMask(sh.t, mask)
				check := func(what string, v Val, of *pmsg) {
					got := m.msg(v)
					if got == nil {
						s.Fail("%s with %s returns nothing", what, maskName(mask))
						return
					}
					if !valid {
						return
					}
					loose := map[string]bool{}
					for _, d := range m.diff(m.project(of, mask, loose, ""), got, loose, "") {
						s.Fail("%s with %s: %s", what, maskName(mask), d)
					}
				}
				stored := func(want *pmsg) {
					for _, d := range m.diff(want, full(), nil, "") {
						s.Fail("%s with %s modifies the stored value: %s", what, maskName(mask), d)
					}
				}
				switch meth {
				case "Get":
					args := ropts
					if typ == "Collection" {
						args = append([]Val{strID("x")}, ropts...)
					}
					check(what, s.M(r, resPkg, typ, meth, args...)[0], seed0)
				case "List":
					out := s.M(r, resPkg, typ, meth, ropts...)[0]
					sl, ok := s.P.SliceOf(out)
					if !ok || sl.Hi-sl.Lo != 1 {
						s.Stop("List doesn't return every item")
					}
					check(what, sl.Arr.Cells[sl.Lo].Load(), seed0)
				default:
					args := append([]Val{s.Ctx("ctx")}, ropts...)
					if meth == "PullID" {
						args = append([]Val{args[0], strID("x")}, ropts...)
					}
					rd := s.Read(s.M(r, resPkg, typ, meth, args...)[0])
					s.P.Settle()
					// equal projections might not be sent: only what is
					if len(rd.Events) != 1 {
						s.Stop("%s with %s starts with %d events", what, maskName(mask), len(rd.Events))
					}
					evVal := func(i int, field string) Val {
						e := rd.Events[i]
						return s.Field(e, field)
					}
					nv := "Value"
					if meth == "Pull" && typ == "Collection" {
						nv = "NewValue"
					}
					check(what+" seed", evVal(0, nv), seed0)
					stored(seed0)
					upd := m.newMsg(sh.t, "new")
					upd0 := m.clone(upd)
					if typ == "Value" {
						s.M(r, resPkg, typ, "Set", m.val(upd))
					} else {
						s.M(r, resPkg, typ, "Update", strID("x"), m.val(upd))
					}
					s.P.Settle()
					for i := 1; i < len(rd.Events); i++ {
						check(what+" change", evVal(i, nv), upd0)
						if nv == "NewValue" {
							check(what+" old value", evVal(i, "OldValue"), seed0)
						}
					}
					if len(rd.Events) != 2 {
						s.Stop("%s with %s: %d events for a change", what, maskName(mask), len(rd.Events)-1)
					}
					stored(upd0)
					if typ == "Collection" {
						s.M(r, resPkg, typ, "Delete", strID("x"))
						s.P.Settle()
						if meth == "Pull" {
							if len(rd.Events) != 3 {
								s.Stop("%s with %s: no event for a removed item", what, maskName(mask))
							}
							check(what+" old value of a removed item", evVal(2, "OldValue"), upd0)
						}
					}
					return
				}
				stored(seed0)
			})
		}
	}
}
