package rules

import (
	"go/types"
	"reflect"
	"sort"
	"strings"
	"sync"

	"scverify/internal/absint"
	"scverify/internal/load"
)

// Generated messages whose structure is known: what package proto and package masks do with them is computed from the
// struct tags of the generated types. (C05 and C06 decide that package masks does what's assumed here.)

// tmField is a field of a generated message, wrapper is set for members of a oneof.
type tmField struct {
	name    string
	idx     int
	wrapper *types.Named
	kind    string // scalar, optional, bytes, message, list, map
	t       types.Type
	list    bool
}

func protoTagName(tag string) string {
	for _, part := range strings.Split(reflect.StructTag(tag).Get("protobuf"), ",") {
		if n, ok := strings.CutPrefix(part, "name="); ok {
			return n
		}
	}
	return ""
}

var tmNoField = []tmField{}

// tmFieldsOf remembers the fields of types.
var tmFieldsOf sync.Map

// tmFields are the fields of a generated message type.
func tmFields(t types.Type) []tmField {
	if r, ok := tmFieldsOf.Load(t); ok {
		return r.([]tmField)
	}
	r := tmFieldsUncached(t)
	tmFieldsOf.Store(t, r)
	return r
}

func tmFieldsUncached(t types.Type) []tmField {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	r := tmNoField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		if one := reflect.StructTag(st.Tag(i)).Get("protobuf_oneof"); one != "" {
			iface, ok := f.Type().Underlying().(*types.Interface)
			if !ok {
				continue
			}
			sc := f.Pkg().Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				nt, ok := tn.Type().(*types.Named)
				if !ok || types.IsInterface(nt) || !types.Implements(types.NewPointer(nt), iface) {
					continue
				}
				ws, ok := nt.Underlying().(*types.Struct)
				if !ok || ws.NumFields() != 1 || protoTagName(ws.Tag(0)) == "" {
					continue
				}
				tf := tmField{name: protoTagName(ws.Tag(0)), idx: i, wrapper: nt, t: ws.Field(0).Type(), kind: "optional"}
				if isMsgPtr(tf.t) {
					tf.kind = "message"
				}
				r = append(r, tf)
			}
			continue
		}
		name := protoTagName(st.Tag(i))
		if name == "" {
			continue
		}
		tf := tmField{name: name, idx: i, t: f.Type(), kind: "scalar"}
		switch u := f.Type().Underlying().(type) {
		case *types.Pointer:
			tf.kind = "optional"
			if isMsgPtr(f.Type()) {
				tf.kind = "message"
			}
		case *types.Slice:
			tf.kind = "list"
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				tf.kind = "bytes"
			}
		case *types.Map:
			tf.kind = "map"
		}
		r = append(r, tf)
	}
	return r
}

// tmStruct is the struct of a message that's completely known.
func tmStruct(p *absint.Path, v Val) *absint.StructV {
	if v == nil {
		return nil
	}
	v = absint.Unwrap(p.Resolve(v))
	pv, ok := v.(absint.Ptr)
	if !ok || pv.C == nil {
		return nil
	}
	sv, ok := pv.C.Load0().(*absint.StructV)
	if !ok || sv.Base != "" || sv.T == nil || !isMsgPtr(types.NewPointer(sv.T)) {
		return nil
	}
	return sv
}

// tmGet reads a field, has is whether it's present.
func tmGet(p *absint.Path, sv *absint.StructV, f tmField) (v Val, has bool) {
	v = p.Resolve(sv.Field(f.idx).Load())
	if f.wrapper != nil {
		if absint.IsNilConst(v) || p.IsNil(v) {
			return nil, false
		}
		w := absint.Unwrap(v)
		pv, ok := w.(absint.Ptr)
		if !ok {
			p.Stuck("oneof holds %T", w)
		}
		ws, ok := pv.C.Load0().(*absint.StructV)
		if !ok || !types.Identical(ws.T, f.wrapper) {
			return nil, false
		}
		return p.Resolve(ws.Field(0).Load()), true
	}
	switch f.kind {
	case "scalar":
		return v, !p.Equal(v, p.Zero(f.t))
	case "optional", "message":
		return v, !p.IsNil(v)
	case "list", "bytes":
		if p.IsNil(v) {
			return v, false
		}
		sl, ok := p.SliceOf(v)
		if !ok {
			if f.kind == "bytes" {
				return v, true
			}
			p.Stuck("unknown list in a message")
		}
		return v, sl.Hi > sl.Lo
	case "map":
		if p.IsNil(v) {
			return v, false
		}
		n := 0
		for _, e := range p.MapOf(v).Entries {
			if e.Present {
				n++
			}
		}
		return v, n > 0
	}
	return v, true
}

func tmClear(p *absint.Path, sv *absint.StructV, f tmField) {
	if f.wrapper != nil {
		if _, has := tmGet(p, sv, f); !has {
			return
		}
	}
	st := sv.T.Underlying().(*types.Struct)
	sv.Field(f.idx).Set(p, p.Zero(st.Field(f.idx).Type()))
}

// tmPut stores a copy of field f of src in dst.
func tmPut(p *absint.Path, dst, src *absint.StructV, f tmField) {
	dst.Field(f.idx).Set(p, p.CloneDeep(src.Field(f.idx).Load()))
}

// tmRender describes the content of a message, messages with the same description are equal.
func tmRender(p *absint.Path, v Val) string {
	if v == nil || p.IsNil(v) {
		return "nil"
	}
	sv := tmStruct(p, v)
	if sv == nil {
		return p.MsgContent(v)
	}
	var fs []string
	for _, f := range tmFields(sv.T) {
		x, has := tmGet(p, sv, f)
		if !has {
			continue
		}
		fs = append(fs, f.name+"="+tmRenderVal(p, x, f))
	}
	sort.Strings(fs)
	return "{" + strings.Join(fs, " ") + "}"
}

func tmRenderVal(p *absint.Path, x Val, f tmField) string {
	switch f.kind {
	case "message":
		return tmRender(p, x)
	case "optional":
		if _, isPtr := f.t.Underlying().(*types.Pointer); isPtr {
			return absint.Key(p.Resolve(p.Deref(x).Load()))
		}
	case "list":
		sl, _ := p.SliceOf(x)
		var es []string
		for i := sl.Lo; i < sl.Hi; i++ {
			es = append(es, tmRenderElem(p, sl.Arr.Cells[i].Load()))
		}
		return "[" + strings.Join(es, ",") + "]"
	case "map":
		var es []string
		for _, e := range p.MapOf(x).Entries {
			if e.Present {
				es = append(es, absint.Key(p.Resolve(e.Key))+":"+tmRenderElem(p, e.Cell.Load()))
			}
		}
		sort.Strings(es)
		return "{" + strings.Join(es, ",") + "}"
	case "bytes":
		if sl, ok := p.SliceOf(x); ok {
			var es []string
			for i := sl.Lo; i < sl.Hi; i++ {
				es = append(es, absint.Key(p.Resolve(sl.Arr.Cells[i].Load())))
			}
			return "b[" + strings.Join(es, ",") + "]"
		}
	}
	return absint.Key(p.Resolve(x))
}

func tmRenderElem(p *absint.Path, v Val) string {
	v = p.Resolve(v)
	if tmStruct(p, v) != nil {
		return tmRender(p, v)
	}
	return absint.Key(v)
}

// tmEqual is proto.Equal.
func tmEqual(p *absint.Path, a, b *absint.StructV) bool {
	if a == b {
		return true
	}
	for _, f := range tmFields(a.T) {
		x, hx := tmGet(p, a, f)
		y, hy := tmGet(p, b, f)
		if hx != hy {
			return false
		}
		if hx && !tmEqualVal(p, x, y, f) {
			return false
		}
	}
	return true
}

func tmEqualElem(p *absint.Path, x, y Val) bool {
	if a, b := tmStruct(p, x), tmStruct(p, y); a != nil && b != nil {
		return tmEqual(p, a, b)
	}
	x, y = p.Resolve(x), p.Resolve(y)
	if _, ok := x.(absint.Ptr); ok {
		return p.ProtoEqual(x, y)
	}
	return p.Equal(x, y)
}

func tmEqualVal(p *absint.Path, x, y Val, f tmField) bool {
	switch f.kind {
	case "optional":
		if _, isPtr := f.t.Underlying().(*types.Pointer); isPtr {
			return p.Equal(p.Deref(x).Load(), p.Deref(y).Load())
		}
	case "message":
		return tmEqualElem(p, x, y)
	case "list", "bytes":
		a, ok1 := p.SliceOf(x)
		b, ok2 := p.SliceOf(y)
		if !ok1 || !ok2 {
			return absint.Key(x) == absint.Key(y)
		}
		if a.Hi-a.Lo != b.Hi-b.Lo {
			return false
		}
		for i := 0; i < a.Hi-a.Lo; i++ {
			if !tmEqualElem(p, a.Arr.Cells[a.Lo+i].Load(), b.Arr.Cells[b.Lo+i].Load()) {
				return false
			}
		}
		return true
	case "map":
		am, bm := p.MapOf(x), p.MapOf(y)
		na, nb := 0, 0
		for _, e := range am.Entries {
			if !e.Present {
				continue
			}
			na++
			found := false
			for _, g := range bm.Entries {
				if g.Present && p.Equal(e.Key, g.Key) {
					found = tmEqualElem(p, e.Cell.Load(), g.Cell.Load())
					break
				}
			}
			if !found {
				return false
			}
		}
		for _, g := range bm.Entries {
			if g.Present {
				nb++
			}
		}
		return na == nb
	}
	return p.Equal(x, y)
}

// tmMerge is proto.Merge.
func tmMerge(p *absint.Path, dst, src *absint.StructV) {
	for _, f := range tmFields(src.T) {
		if _, has := tmGet(p, src, f); has {
			tmMergeField(p, dst, src, f)
		}
	}
}

func tmMergeField(p *absint.Path, dst, src *absint.StructV, f tmField) {
	x, _ := tmGet(p, src, f)
	cur, has := tmGet(p, dst, f)
	switch {
	case !has || f.kind == "scalar" || f.kind == "optional" || f.kind == "bytes":
		tmPut(p, dst, src, f)
	case f.kind == "message":
		d, s := tmStruct(p, cur), tmStruct(p, x)
		if d == nil || s == nil {
			p.MergeMsg(cur, x)
			return
		}
		tmMerge(p, d, s)
	case f.kind == "list":
		a, _ := p.SliceOf(cur)
		cl, _ := p.SliceOf(p.CloneDeep(x))
		var es []Val
		for i := a.Lo; i < a.Hi; i++ {
			es = append(es, a.Arr.Cells[i].Load())
		}
		for i := cl.Lo; i < cl.Hi; i++ {
			es = append(es, cl.Arr.Cells[i].Load())
		}
		dst.Field(f.idx).Set(p, p.MkSlice(f.t, p.Fresh("merged"), es...))
	case f.kind == "map":
		for _, e := range p.MapOf(x).Entries {
			if e.Present {
				p.MapPut(cur, e.Key, p.CloneDeep(e.Cell.Load()))
			}
		}
	}
}

func tmReset(p *absint.Path, sv *absint.StructV) {
	for _, f := range tmFields(sv.T) {
		tmClear(p, sv, f)
	}
}

// tmProject clears what isn't selected by paths.
func tmProject(p *absint.Path, sv *absint.StructV, paths []string) {
	mask := nest(paths)
	for _, f := range tmFields(sv.T) {
		x, has := tmGet(p, sv, f)
		if !has {
			continue
		}
		sub, ok := mask[f.name]
		switch {
		case !ok:
			tmClear(p, sv, f)
		case len(sub) == 0:
		case f.kind == "message":
			if m := tmStruct(p, x); m != nil {
				tmProject(p, m, sub)
			}
		case f.kind == "list":
			sl, _ := p.SliceOf(x)
			for i := sl.Lo; i < sl.Hi; i++ {
				m := tmStruct(p, sl.Arr.Cells[i].Load())
				if m == nil {
					tmClear(p, sv, f)
					break
				}
				tmProject(p, m, sub)
			}
		default:
			tmClear(p, sv, f)
		}
	}
}

// tmPrune clears what's selected by paths.
func tmPrune(p *absint.Path, sv *absint.StructV, paths []string) {
	mask := nest(paths)
	for _, f := range tmFields(sv.T) {
		sub, ok := mask[f.name]
		if !ok {
			continue
		}
		if len(sub) == 0 {
			tmClear(p, sv, f)
			continue
		}
		if x, has := tmGet(p, sv, f); has && f.kind == "message" {
			if m := tmStruct(p, x); m != nil {
				tmPrune(p, m, sub)
			}
		}
	}
}

// tmWrite is what a FieldUpdater does: dst is written from src.
func tmWrite(p *absint.Path, dst, src *absint.StructV, writable, update, reset []string) {
	if update != nil && len(update) == 0 {
		return
	}
	switch {
	case update == nil && writable == nil:
		tmReset(p, dst)
		tmMerge(p, dst, src)
	case update == nil:
		tmWriteFields(p, dst, src, writable, true)
	case writable == nil:
		tmWriteFields(p, dst, src, update, false)
	default:
		tmWriteFields(p, dst, src, intersectPaths(normalizePaths(update), normalizePaths(writable)), false)
	}
	tmPrune(p, dst, reset)
}

func tmWriteFields(p *absint.Path, dst, src *absint.StructV, paths []string, replace bool) {
	mask := nest(paths)
	for _, f := range tmFields(src.T) {
		sub, ok := mask[f.name]
		if !ok {
			continue
		}
		sx, sh := tmGet(p, src, f)
		dx, dh := tmGet(p, dst, f)
		switch {
		case len(sub) > 0 && f.kind == "message":
			if !sh && !dh {
				continue
			}
			var sm, dm *absint.StructV
			if sh {
				sm = tmStruct(p, sx)
			} else {
				sm = p.Alloc(pointee(f.t), "empty").C.Load0().(*absint.StructV)
			}
			if !dh {
				c := p.CloneMsg(sx)
				m := tmStruct(p, c)
				tmProject(p, m, sub)
				if f.wrapper != nil {
					w := p.Alloc(f.wrapper, "oneof")
					p.Deref(w).Load0().(*absint.StructV).Field(0).Set(p, c)
					dst.Field(f.idx).Set(p, absint.IfaceV{T: types.NewPointer(f.wrapper), V: w})
				} else {
					dst.Field(f.idx).Set(p, c)
				}
				continue
			}
			dm = tmStruct(p, dx)
			if dm == nil || sm == nil {
				p.Stuck("write of %s", f.name)
			}
			tmWriteFields(p, dm, sm, sub, replace)
		case !sh:
			tmClear(p, dst, f)
		case replace:
			tmPut(p, dst, src, f)
		default:
			tmMergeField(p, dst, src, f)
		}
	}
}

// tmValidPath is what fieldmaskpb accepts.
func tmValidPath(t types.Type, path string) bool {
	for _, n := range strings.Split(path, ".") {
		if t == nil {
			return false
		}
		ok := false
		for _, f := range tmFields(t) {
			if f.name != n {
				continue
			}
			ok = true
			t = nil
			if f.kind == "message" {
				t = pointee(f.t)
			}
			break
		}
		if !ok {
			return false
		}
	}
	return true
}

// tmMasks is what an updater or filter has been configured with.
type tmMasks struct {
	update, reset, writable, fields []string
}

// pathsOf lists the paths of a mask, it's nil when the mask is.
func (s *Scn) pathsOf(mask Val) []string {
	if mask == nil || s.P.IsNil(mask) {
		return nil
	}
	return append([]string{}, s.pm().paths(mask)...)
}

// tmCfg computes what package proto and package masks do with messages that are known.
func tmCfg(cfg *absint.Config) *absint.Config {
	if cfg.Hooks == nil {
		cfg.Hooks = map[string]func(*absint.Call) (Val, bool){}
	}
	masks := load.Module + "/" + masksPkg
	opt := func(name string, apply func(s *Scn, m *tmMasks, arg Val)) {
		cfg.Hooks[masks+"."+name] = func(c *absint.Call) (Val, bool) {
			arg := c.Args[0]
			t := resType(c)
			return &absint.FuncV{Name: name, T: t, Native: func(p *absint.Path, args []Val) Val {
				apply(&Scn{P: p, C: tmCtx(p)}, p.Data["tm:"+absint.Key(args[0])].(*tmMasks), arg)
				return absint.TupleV{}
			}}, true
		}
	}
	strs := func(s *Scn, v Val) []string {
		sl, ok := s.P.SliceOf(v)
		r := []string{}
		for i := sl.Lo; ok && i < sl.Hi; i++ {
			x, _ := absint.StringConst(s.P.Resolve(sl.Arr.Cells[i].Load()))
			r = append(r, x)
		}
		return r
	}
	opt("WithUpdateMask", func(s *Scn, m *tmMasks, v Val) {
		if ps := s.pathsOf(v); ps != nil {
			m.update = ps
		}
	})
	opt("WithResetMask", func(s *Scn, m *tmMasks, v Val) { m.reset = s.pathsOf(v) })
	opt("WithResetPaths", func(s *Scn, m *tmMasks, v Val) { m.reset = strs(s, v) })
	opt("WithWritableFields", func(s *Scn, m *tmMasks, v Val) {
		if ps := s.pathsOf(v); ps != nil {
			m.writable = ps
		}
	})
	opt("WithUpdateMaskFieldName", func(s *Scn, m *tmMasks, v Val) {})
	opt("WithFieldMask", func(s *Scn, m *tmMasks, v Val) {
		if ps := s.pathsOf(v); ps != nil {
			m.fields = ps
		}
	})
	opt("WithFieldMaskPaths", func(s *Scn, m *tmMasks, v Val) { m.fields = strs(s, v) })
	build := func(c *absint.Call) (Val, bool) {
		p := c.P
		v := p.NonNilSym(p.Fresh("masks"), resType(c))
		p.Data["tm:"+absint.Key(v)] = &tmMasks{}
		if sl, ok := p.SliceOf(c.Args[0]); ok {
			for i := sl.Lo; i < sl.Hi; i++ {
				p.CallValue(sl.Arr.Cells[i].Load(), v)
			}
		}
		return v, true
	}
	cfg.Hooks[masks+".NewFieldUpdater"] = build
	cfg.Hooks[masks+".NewResponseFilter"] = build
	get := func(c *absint.Call) *tmMasks {
		m, _ := c.P.Data["tm:"+absint.Key(c.P.Resolve(c.Args[0]))].(*tmMasks)
		return m
	}
	known := func(c *absint.Call, v Val) *absint.StructV {
		sv := tmStruct(c.P, v)
		if sv == nil {
			c.P.Stuck("masking a message that isn't known: %s", absint.Key(v))
		}
		return sv
	}
	ok := func(c *absint.Call) Val { return absint.MkNil(c.Sig.Results().At(0).Type()) }
	valid := func(t types.Type, paths []string) bool {
		for _, p := range paths {
			if !tmValidPath(t, p) {
				return false
			}
		}
		return true
	}
	cfg.Hooks["(*"+masks+".FieldUpdater).Validate"] = func(c *absint.Call) (Val, bool) {
		m := get(c)
		if m == nil {
			return nil, false
		}
		if m.update == nil && m.reset == nil {
			return ok(c), true
		}
		t := known(c, c.Args[1]).T
		if !valid(t, m.update) {
			return c.P.MkErr(absint.MkInt(3), absint.MkString("unknown fields")), true
		}
		if m.writable != nil {
			for _, p := range m.update {
				if len(intersectPaths([]string{p}, m.writable)) == 0 {
					return c.P.MkErr(absint.MkInt(3), absint.MkString("read-only fields")), true
				}
			}
		}
		if !valid(t, m.reset) {
			return c.P.MkErr(absint.MkInt(13), absint.MkString("unknown fields")), true
		}
		return ok(c), true
	}
	cfg.Hooks["(*"+masks+".FieldUpdater).Merge"] = func(c *absint.Call) (Val, bool) {
		m := get(c)
		if m == nil {
			return nil, false
		}
		c.P.AddEvent(&absint.Event{Kind: "mutate", Name: "masks.Merge", Args: c.Args[1:]})
		c.P.AccessDeep(c.Args[1], true)
		c.P.AccessDeep(c.Args[2], false)
		tmWrite(c.P, known(c, c.Args[1]), known(c, c.Args[2]), m.writable, m.update, m.reset)
		return absint.TupleV{}, true
	}
	cfg.Hooks["(*"+masks+".ResponseFilter).Validate"] = func(c *absint.Call) (Val, bool) {
		m := get(c)
		if m == nil {
			return nil, false
		}
		if m.fields != nil && !valid(known(c, c.Args[1]).T, m.fields) {
			return c.P.MkErr(absint.MkInt(3), absint.MkString("unknown fields")), true
		}
		return ok(c), true
	}
	cfg.Hooks["(*"+masks+".ResponseFilter).Filter"] = func(c *absint.Call) (Val, bool) {
		m := get(c)
		if m == nil {
			return nil, false
		}
		if m.fields == nil || c.P.IsNil(c.Args[1]) {
			return absint.TupleV{}, true
		}
		c.P.AddEvent(&absint.Event{Kind: "mutate", Name: "masks.Filter", Args: c.Args[1:]})
		c.P.AccessDeep(c.Args[1], true)
		tmProject(c.P, known(c, c.Args[1]), m.fields)
		return absint.TupleV{}, true
	}
	cfg.Hooks["(*"+masks+".ResponseFilter).FilterClone"] = func(c *absint.Call) (Val, bool) {
		m := get(c)
		if m == nil {
			return nil, false
		}
		msg := c.P.Resolve(c.Args[1])
		if m.fields == nil || c.P.IsNil(msg) {
			return msg, true
		}
		c.P.AccessDeep(msg, false)
		r := c.P.CloneMsg(msg)
		tmProject(c.P, known(c, r), m.fields)
		return r, true
	}
	fm := func(c *absint.Call, f func(s *Scn, ms [][]string) []string) (Val, bool) {
		s := &Scn{P: c.P, C: tmCtx(c.P)}
		var ms [][]string
		for i, a := range c.Args {
			if sl, ok := c.P.SliceOf(a); ok && i == len(c.Args)-1 && c.Sig.Variadic() {
				for j := sl.Lo; j < sl.Hi; j++ {
					ms = append(ms, s.pathsOf(sl.Arr.Cells[j].Load()))
				}
				continue
			}
			ms = append(ms, s.pathsOf(a))
		}
		return s.pm().mask(f(s, ms)...), true
	}
	cfg.Hooks[fmNS+".Union"] = func(c *absint.Call) (Val, bool) {
		return fm(c, func(s *Scn, ms [][]string) []string {
			var all []string
			for _, m := range ms {
				all = append(all, m...)
			}
			return normalizePaths(all)
		})
	}
	cfg.Hooks[fmNS+".Intersect"] = func(c *absint.Call) (Val, bool) {
		return fm(c, func(s *Scn, ms [][]string) []string {
			r := ms[0]
			for _, m := range ms[1:] {
				r = intersectPaths(r, m)
			}
			return r
		})
	}
	cfg.Hooks[fmNS+".New"] = func(c *absint.Call) (Val, bool) {
		s := &Scn{P: c.P, C: tmCtx(c.P)}
		ps := strs(s, c.Args[1])
		mt := c.P.Resolve(c.Args[0])
		if sv := tmStruct(c.P, mt); sv != nil && !valid(sv.T, ps) {
			return absint.TupleV{s.pm().mask(), c.P.MkErr(absint.MkInt(2), absint.MkString("invalid path"))}, true
		}
		return absint.TupleV{s.pm().mask(ps...), absint.MkNil(errType)}, true
	}
	cfg.Hooks["(*"+fmNS+".FieldMask).IsValid"] = func(c *absint.Call) (Val, bool) {
		sv := tmStruct(c.P, c.Args[1])
		if sv == nil {
			return nil, false
		}
		s := &Scn{P: c.P, C: tmCtx(c.P)}
		return absint.MkBool(valid(sv.T, s.pathsOf(c.Args[0]))), true
	}
	old := cfg.Hook
	cfg.Hook = func(c *absint.Call) (Val, bool) {
		if v, ok := tmFn(c); ok {
			return v, true
		}
		if old != nil {
			return old(c)
		}
		return nil, false
	}
	return cfg
}

// tmCtx finds the context of the path's scenario.
func tmCtx(p *absint.Path) *Ctx { c, _ := p.Data["scn.ctx"].(*Ctx); return c }

func tmFn(c *absint.Call) (Val, bool) {
	p := c.P
	switch c.Name {
	case protoNS + "Equal":
		a, b := tmStruct(p, c.Args[0]), tmStruct(p, c.Args[1])
		if a != nil && b != nil {
			p.AccessDeep(c.Args[0], false)
			p.AccessDeep(c.Args[1], false)
			return absint.MkBool(types.Identical(a.T, b.T) && tmEqual(p, a, b)), true
		}
	case protoNS + "Merge":
		a, b := tmStruct(p, c.Args[0]), tmStruct(p, c.Args[1])
		if a != nil && b != nil {
			if !types.Identical(a.T, b.T) {
				p.Stuck("merge of different messages")
			}
			p.AddEvent(&absint.Event{Kind: "mutate", Name: c.Name, Args: c.Args, Pos: c.Pos})
			p.AccessDeep(c.Args[0], true)
			p.AccessDeep(c.Args[1], false)
			tmMerge(p, a, b)
			return absint.TupleV{}, true
		}
	case protoNS + "Reset":
		if a := tmStruct(p, c.Args[0]); a != nil {
			p.AddEvent(&absint.Event{Kind: "mutate", Name: c.Name, Args: c.Args, Pos: c.Pos})
			p.AccessDeep(c.Args[0], true)
			tmReset(p, a)
			return absint.TupleV{}, true
		}
	}
	// equivalences with tolerances, C16 decides them
	if c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == load.Module+"/pkg/cmp" && c.Sig.Results().Len() == 1 && c.Sig.Params().Len() == 2 && len(c.Args) >= 2 {
		n := len(c.Args)
		b, ok := c.Sig.Results().At(0).Type().Underlying().(*types.Basic)
		if ok && b.Info()&types.IsBoolean != 0 && isMessage(c.Sig.Params().At(0).Type()) && isMessage(c.Sig.Params().At(1).Type()) {
			x, y := p.Resolve(c.Args[n-2]), p.Resolve(c.Args[n-1])
			if p.IsNil(x) || p.IsNil(y) {
				return absint.MkBool(p.IsNil(x) && p.IsNil(y)), true
			}
			a, b := tmStruct(p, x), tmStruct(p, y)
			if a != nil && b != nil {
				p.AccessDeep(x, false)
				p.AccessDeep(y, false)
				return absint.MkBool(types.Identical(a.T, b.T) && tmEqual(p, a, b)), true
			}
		}
	}
	return nil, false
}

// Build makes a message of a generated type from proto field names. Values are Go scalars, []any, map[string]any for
// messages, or Val.
func (s *Scn) build(t types.Type, fields map[string]any) Val {
	p := s.P
	pv := p.Alloc(t, p.Fresh(t.(*types.Named).Obj().Name()))
	sv := pv.C.Load0().(*absint.StructV)
	known := tmFields(t)
	for _, n := range sortedKeys(fields) {
		var f *tmField
		for i := range known {
			if known[i].name == n {
				f = &known[i]
			}
		}
		if f == nil {
			s.P.Stuck("%s has no field %s", t, n)
		}
		v := s.buildVal(f.t, fields[n], f.kind)
		if f.wrapper != nil {
			w := p.Alloc(f.wrapper, "oneof")
			p.Deref(w).Load0().(*absint.StructV).Field(0).Set(p, v)
			v = absint.IfaceV{T: types.NewPointer(f.wrapper), V: w}
		}
		sv.Field(f.idx).Set(p, v)
	}
	return pv
}

func (s *Scn) buildVal(t types.Type, x any, kind string) Val {
	switch v := x.(type) {
	case map[string]any:
		if m, ok := t.Underlying().(*types.Map); ok {
			mv := s.P.MkMap(t, s.P.Fresh("map"))
			for _, k := range sortedKeys(v) {
				s.P.MapPut(mv, absint.MkString(k), s.buildVal(m.Elem(), v[k], ""))
			}
			return mv
		}
		return s.build(pointee(t), v)
	case []any:
		el := t.Underlying().(*types.Slice).Elem()
		var es []Val
		for _, e := range v {
			es = append(es, s.buildVal(el, e, ""))
		}
		return s.P.MkSlice(t, s.P.Fresh("list"), es...)
	}
	switch x.(type) {
	case string, bool, int, float64:
	default:
		return x
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		c := s.P.Alloc(pt.Elem(), s.P.Fresh("opt"))
		s.P.Deref(c).Set(s.P, s.buildVal(pt.Elem(), x, ""))
		return c
	}
	switch v := x.(type) {
	case string:
		return absint.Const{T: t, V: absint.MkString(v).V}
	case bool:
		return absint.Const{T: t, V: absint.MkBool(v).V}
	case int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return absint.MkFloat(t, float64(v))
		}
		return absint.Const{T: t, V: absint.MkInt(int64(v)).V}
	case float64:
		return absint.MkFloat(t, v)
	}
	panic("unreachable")
}

// clone copies a known message.
func (s *Scn) clone(v Val) Val { return s.P.CloneMsg(v) }

// render describes a known message.
func (s *Scn) render(v Val) string { return tmRender(s.P, v) }
