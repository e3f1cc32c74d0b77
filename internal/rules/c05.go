package rules

import (
	"fmt"
	"strings"

	"scverify/internal/absint"
)

func init() {
	register("C05", "updater-merge", "Field updaters validate and merge what the masks say", c05Updater)
	register("C05", "resource-write", "Writes of resources change what the masks say", c05Resource)
	register("C05", "remove-prefix", "Stripping the prefix of a mask", c05Prefix)
}

// shape is a message type, with the masks that are interesting for it.
type shape struct {
	name string
	t    *ptype
	w, m [][]string // nil is no mask
	r    [][]string
}

func subsets(pool []string, max int) [][]string {
	r := [][]string{nil, {}}
	for i, a := range pool {
		r = append(r, []string{a})
		if max < 2 {
			continue
		}
		for _, b := range pool[i+1:] {
			r = append(r, []string{a, b})
		}
	}
	return r
}

func maskName(m []string) string {
	if m == nil {
		return "no mask"
	}
	return "{" + strings.Join(m, ",") + "}"
}

func maskShapes(thorough bool) []shape {
	z := mkType("Z", pscalar("z"), pscalar("w"))
	n := mkType("N", pscalar("x"), pscalar("y"), pmessage("n", z))
	el := mkType("E", pscalar("x"), pscalar("y"))
	var r []shape
	deep := []string{"a", "m", "m.x", "m.n", "m.n.z"}
	r = append(r, shape{
		name: "nested messages",
		t:    mkType("T", pscalar("a"), pscalar("b"), pmessage("m", n)),
		w:    append(subsets(deep, 2), []string{"m", "m.x"}, []string{"m.n.z", "m.x", "a"}),
		m:    append(subsets(deep, 2), []string{"m.x", "m"}, []string{"a", "a"}, []string{"q"}, []string{"a", "q"}, []string{"m.q"}, []string{"a.q"}, []string{""}, []string{"m."}, []string{"m.y", "m.n.z", "a"}),
		r:    [][]string{nil, {"a"}, {"m.x"}, {"m", "b"}},
	})
	flat := []string{"a", "b", "m.x"}
	for _, b := range []*pfield{poptional("b"), plist("b"), plistOf("b", el), pmap("b"), pmessage("b", el)} {
		ms := append(subsets(flat, 2), []string{"b.q"}, []string{"b.x"}, []string{"b.x", "a"})
		r = append(r, shape{
			name: b.kind + " of " + b.elem,
			t:    mkType("T", pscalar("a"), b, pmessage("m", el)),
			w:    subsets(flat, 2),
			m:    ms,
			r:    [][]string{nil, {"b"}},
		})
	}
	return r
}

type focus struct {
	paths []string
}

// leaves lists the paths of a type.
func leaves(t *ptype, prefix string) []string {
	var r []string
	for _, f := range t.fields {
		p := prefix + f.name
		if f.kind == "message" {
			r = append(r, leaves(f.msg, p+".")...)
		} else {
			r = append(r, p)
		}
	}
	return r
}

// focusCfg lets only the presence of one leaf (chosen by the scenario) and what it's part of vary, the others are all present or
// all absent.
func focusCfg(cfg *absint.Config, thorough bool) *absint.Config {
	old := cfg.Oracle
	cfg.Oracle = func(p *absint.Path, key string, n int) (int, bool) {
		if f, ok := p.Data["pm.focus"].(string); ok && (strings.HasPrefix(key, "in:has:") || strings.HasPrefix(key, "in:len:")) {
			k := key[7:]
			i := strings.Index(k, ".")
			path := stripIndex(k[i+1:])
			if !(path == f || strings.HasPrefix(f, path+".") || strings.HasPrefix(path, f+".")) {
				present := p.Data["pm.others"].(bool)
				if key[3] == 'l' {
					if present {
						return 1, true
					}
					return 0, true
				}
				if present {
					return 0, true
				}
				return 1, true
			}
		}
		if old != nil {
			return old(p, key, n)
		}
		return 0, false
	}
	return cfg
}

func stripIndex(s string) string {
	var sb strings.Builder
	in := false
	for _, r := range s {
		switch {
		case r == '[':
			in = true
		case r == ']':
			in = false
		case !in:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

func (s *Scn) focus(t *ptype) {
	ls := leaves(t, "")
	s.P.Data["pm.focus"] = ls[s.Pick("focus", len(ls))]
	s.P.Data["pm.others"] = s.Bool("others present")
}

// wspec is what a write has to do.
type wspec struct {
	m       *pm
	t       *ptype
	w, u, r []string
}

// verdict returns whether the update mask has to be rejected or accepted.
func (sp *wspec) verdict() (reject, accept bool) {
	accept = true
	for _, p := range sp.u {
		if !validPath(sp.t, p) {
			return true, false
		}
		if sp.w == nil || within(p, sp.w) {
			continue
		}
		if len(intersectPaths([]string{p}, sp.w)) == 0 {
			return true, false
		}
		accept = false // parts of it are writable
	}
	return false, accept
}

func nest(paths []string) map[string][]string {
	r := map[string][]string{}
	for _, p := range normalizePaths(paths) {
		h, t, ok := strings.Cut(p, ".")
		if !ok {
			r[h] = nil
		} else {
			r[h] = append(r[h], t)
		}
	}
	return r
}

// apply computes what becomes of dst.
func (sp *wspec) apply(dst, src *pmsg, loose map[string]bool) *pmsg {
	m := sp.m
	out := m.clone(dst)
	if sp.u != nil && len(sp.u) == 0 {
		return out
	}
	switch {
	case sp.u == nil && sp.w == nil:
		out = m.clone(src)
	case sp.u == nil:
		sp.walk(out, src, sp.w, true, loose, "")
	case sp.w == nil:
		sp.walk(out, src, sp.u, false, loose, "")
	default:
		sp.walk(out, src, intersectPaths(normalizePaths(sp.u), normalizePaths(sp.w)), false, loose, "")
	}
	sp.clear(out, sp.r, loose, "")
	return out
}

func (sp *wspec) walk(dst, src *pmsg, paths []string, replace bool, loose map[string]bool, prefix string) {
	m := sp.m
	mask := nest(paths)
	for _, f := range dst.t.fields {
		sub, ok := mask[f.name]
		if !ok {
			continue
		}
		d, s := m.field(dst, f), m.field(src, f)
		switch {
		case len(sub) > 0:
			loose[prefix+f.name] = true
			var dm, sm *pmsg
			if m.has(d, f) {
				dm = d.m
			} else {
				dm = m.newMsg(f.msg, "")
				d.set, d.m = true, dm
			}
			if m.has(s, f) {
				sm = s.m
			} else {
				sm = m.newMsg(f.msg, "")
			}
			sp.walk(dm, sm, sub, replace, loose, prefix+f.name+".")
		case replace || f.kind == "scalar" || f.kind == "optional" || !m.has(s, f):
			dst.f[f.name] = m.cloneVal(s)
		case f.kind == "message":
			if m.has(d, f) {
				m.merge(d.m, s.m)
			} else {
				dst.f[f.name] = m.cloneVal(s)
			}
		default:
			m.has(d, f)
			for _, e := range s.list {
				d.list = append(d.list, m.cloneVal(e))
			}
			d.set = true
		}
	}
}

func (sp *wspec) clear(dst *pmsg, paths []string, loose map[string]bool, prefix string) {
	mask := nest(paths)
	for _, f := range dst.t.fields {
		sub, ok := mask[f.name]
		if !ok {
			continue
		}
		if len(sub) == 0 {
			dst.f[f.name] = &pval{}
			continue
		}
		loose[prefix+f.name] = true
		if d := sp.m.field(dst, f); sp.m.has(d, f) {
			sp.clear(d.m, sub, loose, prefix+f.name+".")
		}
	}
}

func (m *pm) maskOrNil(paths []string) Val {
	if paths == nil {
		return m.nilMask()
	}
	return m.mask(paths...)
}

func c05Updater(c *Ctx) {
	merge := c.Method(masksPkg, "FieldUpdater", "Merge")
	for _, sh := range maskShapes(c.Tier == "thorough") {
		for ri, r := range sh.r {
			cfg := focusCfg(pmCfg(&absint.Config{MaxLoop: 30}), c.Tier == "thorough")
			name := sh.name
			if r != nil {
				name += ", reset " + maskName(r)
			}
			c.Explore("updater-merge", name, merge.Pos(), cfg, func(s *Scn) {
				m := s.pm()
				sp := &wspec{m: m, t: sh.t, r: r}
				ws, us := sh.w, sh.m
				if ri > 0 && c.Tier != "thorough" {
					ws, us = every(ws, 2), every(us, 2)
				}
				sp.w = ws[s.Pick("writable", len(ws))]
				sp.u = us[s.Pick("update mask", len(us))]
				what := fmt.Sprintf("update %s of writable %s", maskName(sp.u), maskName(sp.w))
				wm, um, rm := m.maskOrNil(sp.w), m.maskOrNil(sp.u), m.maskOrNil(sp.r)
				up := s.F(masksPkg, "NewFieldUpdater",
					s.F(masksPkg, "WithWritableFields", wm),
					s.F(masksPkg, "WithUpdateMask", um),
					s.F(masksPkg, "WithResetMask", rm))
				dst, src := m.newMsg(sh.t, "old"), m.newMsg(sh.t, "new")
				s.focus(sh.t)
				unchanged := func() {
					if strings.Join(m.paths(um), " ") != strings.Join(sp.u, " ") || strings.Join(m.paths(wm), " ") != strings.Join(sp.w, " ") || strings.Join(m.paths(rm), " ") != strings.Join(sp.r, " ") {
						s.Fail("a mask is modified by %s", what)
					}
				}
				err := s.M(up, masksPkg, "FieldUpdater", "Validate", m.val(src))[0]
				code := s.Code(err)
				reject, accept := sp.verdict()
				switch {
				case reject && code != "InvalidArgument":
					s.Stop("%s is answered with %s instead of InvalidArgument", what, code)
				case accept && code != "OK":
					s.Stop("%s is rejected with %s", what, code)
				case code != "OK" && code != "InvalidArgument":
					s.Stop("%s is rejected with %s", what, code)
				}
				unchanged()
				if code != "OK" {
					return
				}
				d0, s0 := m.clone(dst), m.clone(src)
				s.M(up, masksPkg, "FieldUpdater", "Merge", m.val(dst), m.val(src))
				loose := map[string]bool{}
				want := sp.apply(d0, s0, loose)
				for _, d := range m.diff(want, dst, loose, "") {
					s.Fail("%s: %s", what, d)
				}
				for _, d := range m.diff(s0, src, nil, "") {
					s.Fail("%s modifies the written message: %s", what, d)
				}
				unchanged()
			})
		}
	}
}

func every(in [][]string, n int) [][]string {
	var r [][]string
	for i, x := range in {
		if i < 2 || i%n == 0 {
			r = append(r, x)
		}
	}
	return r
}

func c05Prefix(c *Ctx) {
	fn := c.Fn(masksPkg, "RemovePrefix")
	c.Explore("remove-prefix", "RemovePrefix", fn.Pos(), pmCfg(&absint.Config{MaxLoop: 30}), func(s *Scn) {
		m := s.pm()
		pool := [][]string{nil, {}, {"p"}, {"p.a"}, {"p.a", "p.b.c"}, {"q"}, {"q.a", "p.a"}, {"pa"}, {"p", "p.a"}, {"p.*.a"}, {"p.*"}, {"pa.b", "p.p"}}
		in := pool[s.Pick("mask", len(pool))]
		im := m.maskOrNil(in)
		out := s.F(masksPkg, "RemovePrefix", absint.MkString("p"), im)
		var want []string
		for _, p := range in {
			if strings.HasPrefix(p, "p.") {
				p = strings.TrimPrefix(strings.TrimPrefix(p, "p."), "*")
				if p = strings.TrimPrefix(p, "."); p != "" {
					want = append(want, p)
				}
			}
		}
		if got := m.paths(out); strings.Join(got, " ") != strings.Join(want, " ") {
			s.Fail("the paths of %s after p are %s", maskName(in), maskName(got))
		}
		if strings.Join(m.paths(im), " ") != strings.Join(in, " ") {
			s.Fail("the mask passed to RemovePrefix is modified")
		}
	})
}

// pmResCfg is the configuration for resources of messages of the protobuf model.
func pmResCfg(c *Ctx) *absint.Config {
	cfg := resCfg(c)
	h := map[string]func(*absint.Call) (Val, bool){}
	for k, f := range cfg.Hooks {
		if !strings.Contains(k, "/pkg/masks.") && !strings.HasPrefix(k, fmNS) {
			h[k] = f
		}
	}
	cfg.Hooks = h
	cfg.MaxLoop = 30
	return pmCfg(cfg)
}

func c05Resource(c *Ctx) {
	sh := maskShapes(false)[0]
	ws := [][]string{nil, {}, {"a"}, {"m"}, {"m.x"}, {"a", "m.x"}}
	us := [][]string{nil, {}, {"a"}, {"m.x"}, {"m"}, {"a", "m"}, {"q"}, {"m.n.z"}, {"m.x", "m"}, {"a", "b"}}
	for _, what := range []string{"Value.Set", "Collection.Update", "Collection.Update of a new item", "Collection.Add"} {
		typ, meth := what[:strings.Index(what, ".")], what[strings.Index(what, ".")+1:]
		isNew := strings.Contains(what, "new") || meth == "Add"
		meth = strings.Fields(meth)[0]
		fn := c.Method(resPkg, typ, meth)
		for _, extra := range []string{"", "more writable", "nil more writable", "all writable", "reset", "more update"} {
			if extra == "more update" && meth == "Add" {
				continue
			}
			cfg := focusCfg(pmResCfg(c), false)
			name := what
			if extra != "" {
				name += ", " + extra
			}
			c.Explore("resource-write", name, fn.Pos(), cfg, func(s *Scn) {
				m := s.pm()
				sp := &wspec{m: m, t: sh.t}
				old := m.newMsg(sh.t, "old")
				if isNew {
					old = m.newMsg(sh.t, "")
				}
				sp.w = ws[s.Pick("writable", len(ws))]
				wname := maskName(sp.w)
				opts := []Val{s.F(resPkg, "WithClock", s.clock())}
				if sp.w != nil || s.Bool("explicitly no mask") {
					opts = append(opts, s.F(resPkg, "WithWritableFields", m.maskOrNil(sp.w)))
				}
				if typ == "Value" {
					opts = append(opts, s.F(resPkg, "WithInitialValue", m.val(old)))
				} else if !isNew {
					opts = append(opts, s.F(resPkg, "WithInitialRecord", strID("x"), m.val(old)))
				}
				var wopts []Val
				if meth != "Add" {
					sp.u = us[s.Pick("update mask", len(us))]
					switch {
					case sp.u == nil && s.Bool("explicit"):
						wopts = append(wopts, s.F(resPkg, "WithUpdateMask", m.nilMask()))
					case sp.u == nil:
					case s.Bool("as paths"):
						wopts = append(wopts, s.F(resPkg, "WithUpdatePaths", absint.Unwrap(m.pathSlice(sp.u))))
					default:
						wopts = append(wopts, s.F(resPkg, "WithUpdateMask", m.mask(sp.u...)))
					}
				}
				switch extra {
				case "more update":
					// a nil mask names every field already
					switch s.Pick("more update", 3) {
					case 0:
						wopts = append(wopts, s.F(resPkg, "WithMoreUpdateMask", m.nilMask()))
					case 1:
						wopts = append(wopts, s.F(resPkg, "WithMoreUpdatePaths", absint.Unwrap(m.pathSlice([]string{"b"}))))
						if sp.u != nil {
							sp.u = append(append([]string{}, sp.u...), "b")
						}
					default:
						wopts = append(wopts, s.F(resPkg, "WithMoreUpdateMask", m.mask("b")), s.F(resPkg, "WithMoreUpdatePaths", absint.Unwrap(m.pathSlice([]string{"m.y", "b"}))))
						if sp.u != nil {
							sp.u = append(append([]string{}, sp.u...), "b", "m.y")
						}
					}
				case "more writable":
					more := []string{"b", "m.n"}
					if s.Bool("one by one") {
						wopts = append(wopts, s.F(resPkg, "WithMoreWritablePaths", absint.Unwrap(m.pathSlice(more[:1]))), s.F(resPkg, "WithMoreWritableFields", m.mask(more[1:]...)))
					} else {
						wopts = append(wopts, s.F(resPkg, "WithMoreWritableFields", m.mask(more...)))
					}
					if sp.w != nil {
						sp.w = append(append([]string{}, sp.w...), more...)
					}
				case "nil more writable":
					wopts = append(wopts, s.F(resPkg, "WithMoreWritableFields", m.nilMask()))
				case "all writable":
					wopts = append(wopts, s.F(resPkg, "WithAllFieldsWritable"))
					sp.w = nil
				case "reset":
					sp.r = []string{"b", "m.y"}
					wopts = append(wopts, s.F(resPkg, "WithResetMask", m.mask(sp.r...)))
				}
				if strings.Contains(what, "new") {
					wopts = append(wopts, s.F(resPkg, "WithCreateIfAbsent"))
				}
				desc := fmt.Sprintf("update %s of writable %s", maskName(sp.u), wname)
				s.focus(sh.t)
				old0 := m.clone(old)
				src := m.newMsg(sh.t, "new")
				src0 := m.clone(src)
				var ret []Val
				var get func() Val
				if typ == "Value" {
					r := s.F(resPkg, "NewValue", opts...)
					ret = s.M(r, resPkg, "Value", "Set", append([]Val{m.val(src)}, wopts...)...)
					get = func() Val { return s.M(r, resPkg, "Value", "Get")[0] }
				} else {
					r := s.F(resPkg, "NewCollection", opts...)
					ret = s.M(r, resPkg, "Collection", meth, append([]Val{strID("x"), m.val(src)}, wopts...)...)
					get = func() Val { return s.M(r, resPkg, "Collection", "Get", strID("x"))[0] }
				}
				code := s.Code(ret[1])
				reject, accept := sp.verdict()
				switch {
				case reject && code != "InvalidArgument":
					s.Stop("%s is answered with %s instead of InvalidArgument", desc, code)
				case accept && code != "OK":
					s.Stop("%s is rejected with %s", desc, code)
				case code != "OK" && code != "InvalidArgument":
					s.Stop("%s is rejected with %s", desc, code)
				}
				loose := map[string]bool{}
				want := old0
				if code == "OK" {
					want = sp.apply(old0, src0, loose)
				}
				got := m.msg(get())
				if got == nil {
					if !(isNew && code != "OK") {
						s.Fail("nothing is stored after %s (%s)", desc, code)
					}
					return
				}
				for _, d := range m.diff(want, got, loose, "") {
					s.Fail("%s (%s): stored %s", desc, code, d)
				}
				if code == "OK" {
					if res := m.msg(ret[0]); res == nil {
						s.Fail("%s returns nothing", desc)
					} else {
						for _, d := range m.diff(got, res, nil, "") {
							s.Fail("%s: returned %s", desc, d)
						}
					}
				}
				for _, d := range m.diff(src0, src, nil, "") {
					s.Fail("%s modifies the written message: %s", desc, d)
				}
			})
		}
	}
}
