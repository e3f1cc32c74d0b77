package rules

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"scverify/internal/absint"
)

// C07: messages are isolated. Every public method of every trait model (and of the core resources) runs on known
// messages whose every field is set. A description of each message that crosses the boundary is made when it crosses;
// after every later operation the message still has to match it. What's handed to a write is scribbled over
// afterwards, which neither changes what's stored nor anything that anyone got hold of.

func init() {
	register("C07", "model-isolated", "Messages that crossed the boundary of a model don't change with later operations, writes don't keep the caller's message, reads don't change what's stored", c07Models)
	register("C07", "core-isolated", "The same for Value and Collection, with every option", c07Core)
	register("C07", "server-isolated", "The same for the servers in front of the models", c07Servers)
	register("C07", "masks-isolated", "Merging with masks shares nothing with the written message, filtering with masks changes nothing", c07Masks)
}

// crossed is a message that crossed the boundary.
type crossed struct {
	what string
	v    Val
	was  string
}

// isoWorld watches messages.
type isoWorld struct {
	*Scn
	seen  []*crossed
	ended bool
	now   map[*absint.Cell]string // during a check
	known map[*absint.Cell]string // what's already watched
	last  string                  // the state after the last operation
	// state describes what's stored
	state func() string
}

// watch notes the messages in v.
func (w *isoWorld) watch(what string, v Val) {
	w.P.Quiet(func() {
		for _, m := range w.messagesIn(v, 0) {
			was := w.render(m)
			c := m.(absint.Ptr).C
			if w.known[c] == was {
				continue
			}
			if w.known == nil {
				w.known = map[*absint.Cell]string{}
			}
			w.known[c] = was
			w.seen = append(w.seen, &crossed{what, m, was})
		}
	})
}

// messagesIn finds the messages a value consists of: itself, the elements of a list, the fields of a struct.
func (s *Scn) messagesIn(v Val, depth int) []Val {
	if v == nil || depth > 4 {
		return nil
	}
	v = s.P.Resolve(v)
	switch x := v.(type) {
	case absint.IfaceV:
		return s.messagesIn(x.V, depth)
	case absint.Ptr:
		if x.C == nil {
			return nil
		}
		if isMsgPtr(x.T) {
			return []Val{x}
		}
		if _, ok := x.T.Underlying().(*types.Pointer); ok {
			return s.messagesIn(x.C.Load0(), depth+1)
		}
	case *absint.StructV:
		var r []Val
		if st, ok := x.T.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				switch st.Field(i).Type().Underlying().(type) {
				case *types.Pointer, *types.Interface, *types.Slice, *types.Struct:
					if fv := x.Field(i).Load(); !absint.IsNilConst(fv) {
						r = append(r, s.messagesIn(fv, depth+1)...)
					}
				}
			}
		}
		return r
	case absint.SliceV:
		var r []Val
		for i := x.Lo; i < x.Hi; i++ {
			r = append(r, s.messagesIn(x.Arr.Cells[i].Load(), depth+1)...)
		}
		return r
	case absint.TupleV:
		var r []Val
		for _, e := range x {
			r = append(r, s.messagesIn(e, depth+1)...)
		}
		return r
	}
	return nil
}

// describe renders a message, once per check.
func (w *isoWorld) describe(m Val) string {
	c := m.(absint.Ptr).C
	r, ok := w.now[c]
	if !ok {
		r = w.render(m)
		w.now[c] = r
	}
	return r
}

// check compares everything that crossed so far.
func (w *isoWorld) check(after string) {
	if w.ended {
		return
	}
	w.P.Quiet(func() {
		w.now = map[*absint.Cell]string{}
		defer func() { w.now = nil }()
		for _, m := range w.seen {
			if now := w.describe(m.v); now != m.was {
				w.ended = true
				w.Fail("%s changes afterwards, because of %s\n was %s\n now %s", m.what, after, m.was, now)
				return
			}
		}
	})
}

// scribble changes everything in a message, in place.
func (s *Scn) scribble(v Val) {
	v = absint.Unwrap(s.P.Resolve(v))
	switch x := v.(type) {
	case absint.Ptr:
		if x.C == nil {
			return
		}
		switch sv := x.C.Load0().(type) {
		case *absint.StructV:
			for _, f := range tmFields(sv.T) {
				s.scribbleCell(sv.Field(f.idx), f.wrapper != nil)
			}
		default:
			s.scribbleCell(x.C, false)
		}
	case absint.SliceV:
		for i := x.Lo; i < x.Hi; i++ {
			s.scribbleCell(x.Arr.Cells[i], false)
		}
	case absint.MapV:
		for _, e := range x.M.Entries {
			if e.Present && e.Cell != nil {
				s.scribbleCell(e.Cell, false)
			}
		}
		mt := x.T.Underlying().(*types.Map)
		if b, ok := mt.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if vb, ok := mt.Elem().Underlying().(*types.Basic); ok && vb.Info()&types.IsString != 0 {
				s.P.MapPut(x, absint.MkString("scribbled"), absint.MkString("scribbled"))
			}
		}
	}
}

func (s *Scn) scribbleCell(c *absint.Cell, wrapper bool) {
	v := s.P.Resolve(c.Load())
	switch x := v.(type) {
	case absint.Const:
		if x.T == nil || x.V == nil {
			return
		}
		b, ok := x.T.Underlying().(*types.Basic)
		if !ok {
			return
		}
		switch {
		case b.Info()&types.IsString != 0:
			c.Set(s.P, absint.Const{T: x.T, V: absint.MkString(s.str(x) + "!").V})
		case b.Info()&types.IsBoolean != 0:
			t, _ := absint.BoolConst(x)
			c.Set(s.P, absint.Const{T: x.T, V: absint.MkBool(!t).V})
		case b.Info()&types.IsInteger != 0:
			n, _ := absint.IntConst(x)
			c.Set(s.P, absint.Const{T: x.T, V: absint.MkInt((n + 1) % 100).V})
		case b.Info()&types.IsFloat != 0:
			f, _ := absint.FloatOf(x)
			c.Set(s.P, absint.MkFloat(x.T, f+1000))
		}
	case absint.IfaceV:
		if p, ok := absint.Unwrap(x).(absint.Ptr); ok && p.C != nil {
			if sv, ok := p.C.Load0().(*absint.StructV); ok {
				if wrapper {
					s.scribbleCell(sv.Field(0), false)
				} else {
					s.scribble(p)
				}
			}
		}
	default:
		s.scribble(v)
	}
}

// rich is a message whose every field is set. The variant decides the values and the lengths of lists.
func (s *Scn) rich(t types.Type, variant int, key string, mask []string) Val {
	return s.build(t, s.richFields(t, variant, key, mask, 3))
}

func (s *Scn) richFields(t types.Type, variant int, key string, mask []string, depth int) map[string]any {
	f := map[string]any{}
	switch types.TypeString(t, nil) {
	case tsNS + ".Timestamp", durNS + ".Duration":
		return map[string]any{"seconds": 100 + 10*variant + depth, "nanos": variant}
	}
	fields := tmFields(t)
	members := map[int]int{}
	for _, fl := range fields {
		if fl.wrapper != nil {
			members[fl.idx]++
		}
	}
	nth := map[int]int{}
	for i, fl := range fields {
		if fl.wrapper != nil {
			nth[fl.idx]++
			if nth[fl.idx]-1 != variant%members[fl.idx] {
				continue
			}
		}
		if v := s.richVal(fl.name, fl.t, i, variant, key, mask, depth); v != nil {
			f[fl.name] = v
		}
	}
	return f
}

func (s *Scn) richVal(name string, t types.Type, i, variant int, key string, mask []string, depth int) any {
	if strings.HasPrefix(types.TypeString(t, nil), "*"+fieldMaskNS) {
		if mask != nil && depth == 3 {
			return s.pm().mask(mask...)
		}
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if depth == 3 || name == "" {
				switch name {
				case "id", "name", "consumable":
					return key
				}
			}
			return fmt.Sprintf("%s%d", name, variant)
		case u.Info()&types.IsBoolean != 0:
			return variant%2 == 0
		case u.Info()&types.IsInteger != 0:
			if _, enum := t.(*types.Named); enum {
				return 1 + variant%2
			}
			return 10*variant + i + 1
		case u.Info()&types.IsFloat != 0:
			return float64(10*variant+i) + 0.5
		}
	case *types.Pointer:
		if isMsgPtr(t) {
			if depth == 0 {
				return nil
			}
			if !strings.HasPrefix(types.TypeString(u.Elem(), nil), tsNS) && !strings.HasPrefix(types.TypeString(u.Elem(), nil), durNS) && len(tmFields(u.Elem())) == 0 {
				return map[string]any{}
			}
			return s.richFields(u.Elem(), variant, key, nil, depth-1)
		}
		return s.richVal(name, u.Elem(), i, variant, key, nil, depth-1)
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return mkBytes(s.P, []byte(fmt.Sprintf("%s%d", name, variant)))
		}
		var r []any
		for n := 0; n < 2+variant; n++ {
			v := s.richVal(name, u.Elem(), i, variant+n, fmt.Sprint(key, n), nil, depth-1)
			if m, ok := v.(map[string]any); ok {
				// keys of elements
				for _, k := range []string{"name", "id"} {
					if _, ok := m[k].(string); ok {
						m[k] = fmt.Sprintf("k%d", n+variant)
					}
				}
			}
			if v == nil {
				return nil
			}
			r = append(r, v)
		}
		return r
	case *types.Map:
		m := map[string]any{}
		if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			return nil
		}
		for n := 0; n < 2; n++ {
			v := s.richVal(name, u.Elem(), i, variant+n, key, nil, depth-1)
			if v == nil {
				return nil
			}
			m[fmt.Sprintf("k%d", n+variant)] = v
		}
		return m
	}
	return nil
}

const (
	fieldMaskNS = "google.golang.org/protobuf/types/known/fieldmaskpb.FieldMask"
)

// isoMasks are masks for a message: a field that's a message or a list, and a field in a message.
func isoMasks(t types.Type) [][]string {
	var r [][]string
	for _, f := range tmFields(t) {
		if f.kind == "list" || f.kind == "map" || f.kind == "message" {
			r = append(r, []string{f.name})
			break
		}
	}
	for _, f := range tmFields(t) {
		if f.kind != "message" {
			continue
		}
		for _, g := range tmFields(pointee(f.t)) {
			r = append(r, []string{f.name + "." + g.name})
			break
		}
		break
	}
	for _, f := range tmFields(t) {
		if f.kind == "scalar" && f.name != "id" && f.name != "name" && f.name != "consumable" {
			r = append(r, []string{f.name})
			break
		}
	}
	return r
}

// isoOp is a call of a method.
type isoOp struct {
	recv    Val
	fn      *ssa.Function
	key     int // of the keys that exist
	variant int
	mask    []string
	create  bool
}

func (o isoOp) String() string {
	r := fmt.Sprintf("%s(key %d, variant %d)", o.fn.Name(), o.key, o.variant)
	if o.create {
		r = fmt.Sprintf("%s(key %d, create if absent)", o.fn.Name(), o.key)
	}
	if o.mask != nil {
		r = fmt.Sprintf("%s(key %d, variant %d, mask %v)", o.fn.Name(), o.key, o.variant, o.mask)
	}
	return r
}

var isoWriters = []string{"Update", "Set", "Create", "Add", "Delete", "Remove", "Merge", "Reset", "Record", "Change", "Generate", "Dispense", "Acknowledge", "Stop", "Replace", "Put", "Patch", "Clear"}
var isoReaders = []string{"Get", "List", "Pull", "Find", "Describe", "Has", "Demand", "ActiveMode", "Modes", "NormalMode", "FanSpeed", "ModeValues", "AvailableValues", "ValuesOf"}

func hasAnyPrefix(s string, ps []string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

type isoMethods struct {
	writers, readers, pulls, others []*ssa.Function
}

// isoMethods sorts the methods of a type.
func (c *Ctx) isoMethods(t *types.Named) (r isoMethods) {
	for _, f := range c.methods(t) {
		n := f.Name()
		switch {
		case f.Object() == nil || f.Object().Pkg() == nil || !strings.HasPrefix(f.Object().Pkg().Path(), modPath+"/"):
		case n == "Register" || n == "Unregister" || strings.HasPrefix(n, "Unwrap") || n == "DeriveValues":
		case isPull(f) || strings.HasPrefix(n, "Pull"):
			r.pulls = append(r.pulls, f)
		case hasAnyPrefix(n, isoWriters):
			r.writers = append(r.writers, f)
		case hasAnyPrefix(n, isoReaders):
			r.readers = append(r.readers, f)
		default:
			r.others = append(r.others, f)
		}
	}
	return
}

// isoMsg is the message a method is about: the masks are for it.
func isoMsg(f *ssa.Function) types.Type {
	sig := f.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		if t := sig.Params().At(i).Type(); isMsgPtr(t) {
			mt := pointee(t)
			// a request
			for _, fl := range tmFields(mt) {
				if fl.name == "update_mask" || fl.name == "read_mask" {
					for _, g := range tmFields(mt) {
						if g.kind == "message" && !strings.HasPrefix(types.TypeString(g.t, nil), "*"+fieldMaskNS) && !strings.HasPrefix(types.TypeString(g.t, nil), "*"+tsNS) {
							return pointee(g.t)
						}
					}
					if fl.name == "read_mask" {
						return msgResult(f)
					}
				}
			}
			return mt
		}
	}
	return msgResult(f)
}

func msgResult(f *ssa.Function) types.Type {
	sig := f.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		if ch, ok := t.Underlying().(*types.Chan); ok {
			t = ch.Elem()
			if st, ok := t.Underlying().(*types.Struct); ok {
				for j := 0; j < st.NumFields(); j++ {
					if isMsgPtr(st.Field(j).Type()) {
						t = st.Field(j).Type()
						break
					}
				}
			}
		}
		if isMsgPtr(t) {
			return pointee(t)
		}
	}
	return nil
}

func takesOption(f *ssa.Function, name string) bool {
	sig := f.Signature
	if !sig.Variadic() {
		return false
	}
	el := sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice).Elem()
	return types.TypeString(el, nil) == modPath+"/"+resPkg+"."+name
}

// masked is whether calls of f can have a mask.
func isoMasked(f *ssa.Function) bool {
	if takesOption(f, "WriteOption") || takesOption(f, "ReadOption") {
		return true
	}
	sig := f.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		if t := sig.Params().At(i).Type(); isMsgPtr(t) {
			for _, fl := range tmFields(pointee(t)) {
				if fl.name == "update_mask" || fl.name == "read_mask" {
					return true
				}
			}
		}
	}
	return false
}

func isoKeyed(f *ssa.Function) bool {
	sig := f.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return true
		}
		if isMsgPtr(t) {
			return true
		}
	}
	return false
}

// ops are the calls of a method that are tried.
func isoOps(f *ssa.Function, keys int) []isoOp {
	if !isoKeyed(f) {
		keys = 1
	}
	r := []isoOp{}
	for k := 0; k < keys; k++ {
		r = append(r, isoOp{fn: f, key: k})
	}
	if f.Signature.Params().Len() == 0 || f.Signature.Params().Len() == 1 && f.Signature.Variadic() {
		if !isoMasked(f) {
			return r[:1]
		}
	}
	r = append(r, isoOp{fn: f, variant: 1})
	if t := isoMsg(f); t != nil && isoMasked(f) {
		for i, m := range isoMasks(t) {
			r = append(r, isoOp{fn: f, variant: i % 2, mask: m})
		}
	}
	if takesOption(f, "WriteOption") {
		r = append(r, isoOp{fn: f, key: keys - 1, create: true})
	}
	return r
}

// args makes the arguments of a call.
func (w *isoWorld) args(o isoOp, keys []string, ctx Val) (args []Val, msgs []Val, stream *fakeStream) {
	sig := o.fn.Signature
	key := keys[o.key%len(keys)]
	ints := 0
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if sig.Variadic() && i == sig.Params().Len()-1 {
			el := t.(*types.Slice).Elem()
			var es []Val
			switch types.TypeString(el, nil) {
			case modPath + "/" + resPkg + ".WriteOption":
				if o.mask != nil {
					es = append(es, w.F(resPkg, "WithUpdateMask", w.pm().mask(o.mask...)))
				}
				if o.create {
					es = append(es, w.F(resPkg, "WithCreateIfAbsent"))
				}
			case modPath + "/" + resPkg + ".ReadOption":
				if o.mask != nil {
					es = append(es, w.F(resPkg, "WithReadMask", w.pm().mask(o.mask...)))
				}
			default:
				if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.String {
					for j := 0; j < 2; j++ {
						es = append(es, absint.Const{T: el, V: absint.MkString(fmt.Sprintf("k%d", j+o.variant)).V})
					}
				}
			}
			args = append(args, w.P.MkSlice(t, w.P.Fresh("opts"), es...))
			continue
		}
		switch u := t.Underlying().(type) {
		case *types.Interface:
			switch {
			case isContext(t):
				args = append(args, ctx)
				continue
			case strings.HasSuffix(types.TypeString(t, nil), "Server"):
				stream = w.serverStream(ctx)
				args = append(args, stream.v)
				continue
			}
		case *types.Basic:
			switch {
			case u.Kind() == types.String:
				args = append(args, absint.Const{T: t, V: absint.MkString(key).V})
				continue
			case u.Info()&types.IsInteger != 0:
				n := 4 + ints
				if _, enum := t.(*types.Named); enum {
					n = 1 + o.variant
				}
				ints++
				args = append(args, absint.Const{T: t, V: absint.MkInt(int64(n)).V})
				continue
			case u.Info()&types.IsFloat != 0:
				args = append(args, absint.MkFloat(t, float64(7+o.variant)))
				continue
			}
		case *types.Pointer:
			if isMsgPtr(t) {
				fields := w.richFields(u.Elem(), o.variant, key, o.mask, 3)
				isoFit(o.fn, pointee(t), fields, o, key)
				m := w.build(u.Elem(), fields)
				args = append(args, m)
				msgs = append(msgs, m)
				continue
			}
		}
		w.P.Stuck("a parameter of type %s", t)
	}
	return
}

// isoFit makes the message one that the method takes.
func isoFit(f *ssa.Function, t types.Type, fields map[string]any, o isoOp, key string) {
	name := ""
	if n, ok := t.(*types.Named); ok {
		name = n.Obj().Name()
	}
	// things are created without an id
	if strings.HasPrefix(f.Name(), "Create") && name != "Publication" && name != "Consumable" && name != "Consumable_Stock" {
		delete(fields, "id")
	}
	if m, ok := fields[strings.ToLower(strings.TrimPrefix(f.Name(), "Create"))].(map[string]any); ok && strings.HasPrefix(f.Name(), "Create") {
		delete(m, "id")
	}
	for k, v := range fields {
		if m, ok := v.(map[string]any); ok && strings.HasSuffix(name, "Request") {
			for _, id := range []string{"id", "name", "consumable"} {
				if _, ok := m[id]; ok && !strings.HasPrefix(f.Name(), "Create") {
					m[id] = key
				}
			}
			if pt, ok := fieldType(t, k).(*types.Pointer); ok {
				isoFit(f, pt.Elem(), m, o, key)
			}
		}
	}
	if strings.HasSuffix(name, "Request") && o.variant != 1 {
		delete(fields, "version")
	}
	switch name {
	case "ElectricMode":
		fields["normal"] = o.variant == 2
	case "AcknowledgePublicationRequest":
		fields["version"] = "version2"
	case "Publication":
		if a, ok := fields["audience"].(map[string]any); ok && o.variant == 2 {
			delete(a, "receipt")
		}
	case "Hail":
		// those that arrived are dropped
		if o.variant != 1 {
			fields["state"] = 1
			delete(fields, "arrive_time")
		}
	case "FanSpeed":
		delete(fields, "preset")
		delete(fields, "preset_index")
		if o.mask == nil {
			fields["percentage"] = 25 + 10*o.variant
		}
	case "Brightness":
		if p, ok := fields["preset"].(map[string]any); ok {
			p["name"] = []string{"p", "q"}[o.variant%2]
		}
		delete(fields, "brightness_tween")
		delete(fields, "target_preset")
	case "OpenClosePositions":
		if p, ok := fields["preset"].(map[string]any); ok && o.variant == 1 {
			p["name"] = "p"
			delete(fields, "states")
		} else {
			delete(fields, "preset")
		}
	case "UpdateOpenClosePositionsRequest", "UpdateModeValuesRequest", "UpdateFanSpeedRequest", "UpdateBrightnessRequest", "UpdateSpeakerVolumeRequest":
		for k := range fields {
			if k == "delta" || k == "relative" {
				delete(fields, k)
			}
		}
	case "ModeValues":
		fields["values"] = map[string]any{"temperature": []string{"auto", "eco"}[o.variant%2]}
	case "Consumable":
		delete(fields, "available_portions")
	}
}

func fieldType(t types.Type, name string) types.Type {
	for _, f := range tmFields(t) {
		if f.name == name {
			return f.t
		}
	}
	return nil
}

// stateOf describes everything a model holds.
func (s *Scn) stateOf(mv Val) string {
	r := ""
	s.P.Quiet(func() {
		h := s.holdings(mv)
		for _, n := range sortedKeys(h) {
			r += n + ": " + strings.Join(h[n], ", ") + "\n"
		}
		sv, ok := s.P.Deref(mv).Load0().(*absint.StructV)
		if !ok {
			return
		}
		st := sv.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if s.C.resourceField(ft) != "" {
				continue
			}
			switch ft.Underlying().(type) {
			case *types.Slice, *types.Pointer:
				if fv := sv.Field(i).Load(); !absint.IsNilConst(fv) {
					for _, m := range s.messagesIn(fv, 3) {
						r += st.Field(i).Name() + ": " + s.render(m) + "\n"
					}
				}
			}
		}
	})
	return r
}

// do runs an operation on the model.
func (w *isoWorld) do(o isoOp, keys []string, write bool, what string) (ok bool, res []Val) {
	if w.ended {
		return false, nil
	}
	what = fmt.Sprintf("%s %s", what, o)
	args, msgs, _ := w.args(o, keys, w.Background())
	before := w.last
	res = w.Call(o.fn, append([]Val{o.recv}, args...)...)
	ok = true
	for i := 0; i < o.fn.Signature.Results().Len() && i < len(res); i++ {
		if types.Identical(o.fn.Signature.Results().At(i).Type(), errType) {
			ok = w.Code(res[i]) == "OK"
			continue
		}
		w.watch(fmt.Sprintf("what %s returned", what), res[i])
	}
	w.P.Settle()
	w.check(what)
	w.last = w.state()
	if !write && !w.ended {
		if after := w.last; after != before {
			w.ended = true
			w.Fail("%s only reads, but changes what's stored\n before %s\n after %s", what, before, after)
			return
		}
	}
	if len(msgs) > 0 && !w.ended {
		held := w.last
		for _, m := range msgs {
			w.scribble(m)
		}
		if now := w.state(); now != held {
			w.ended = true
			w.Fail("changing the message handed to %s afterwards changes what's stored\n before %s\n after %s", what, held, now)
			return
		}
		w.check("changing the message handed to " + what)
		for _, m := range msgs {
			w.watch(fmt.Sprintf("the message handed to %s", what), m)
		}
	}
	return
}

// subscribe opens a stream, messages are watched as soon as they arrive.
func (w *isoWorld) subscribe(o isoOp, keys []string, what string) {
	what = fmt.Sprintf("%s %s", what, o)
	before := w.last
	ctx := w.Ctx(w.P.Fresh("ctx"))
	args, msgs, stream := w.args(o, keys, ctx)
	for _, m := range msgs {
		w.watch("the request of "+what, m)
	}
	n := 0
	got := func(v Val) {
		n++
		w.watch(fmt.Sprintf("message %d of %s", n, what), v)
	}
	if stream != nil {
		stream.onSend = func(m Val) Val { got(m); return nil }
		w.P.Spawn("env stream", func() { w.P.CallFn(o.fn, append([]Val{o.recv}, args...)...) })
	} else {
		ch := w.Call(o.fn, append([]Val{o.recv}, args...)...)[0]
		w.P.Spawn("reader", func() {
			for {
				v, ok := w.P.ChanRecv(ch)
				if !ok {
					return
				}
				got(v)
			}
		})
	}
	w.P.Settle()
	w.check("opening " + what)
	w.last = w.state()
	if after := w.last; after != before && !w.ended {
		w.ended = true
		w.Fail("%s only reads, but changes what's stored\n before %s\n after %s", what, before, after)
	}
}

// isoModel makes a model with some content.
func (w *isoWorld) model(m *model) Val {
	sig := m.ctor.Signature
	var args []Val
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		switch {
		case sig.Variadic() && i == sig.Params().Len()-1:
			el := t.(*types.Slice).Elem()
			var es []Val
			if types.TypeString(el, nil) == modPath+"/"+resPkg+".Option" {
				es = append(es, w.F(resPkg, "WithClock", w.clock()))
				for _, r := range w.C.trRegs() {
					if r.model != nil && r.model.t == m.t {
						es = append(es, w.trPresets(r)...)
						break
					}
				}
			}
			args = append(args, w.P.MkSlice(t, "opts", es...))
		case isMsgPtr(t):
			args = append(args, w.rich(pointee(t), 2, "a", nil))
		default:
			args = append(args, w.P.Zero(t))
		}
	}
	mv := w.Call(m.ctor, args...)[0]
	// some start with many records
	if sv, ok := w.P.Deref(mv).Load0().(*absint.StructV); ok {
		st := sv.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && isMsgPtr(sl.Elem()) {
				if cur, ok := sv.Field(i).Load().(absint.SliceV); ok && cur.Hi-cur.Lo > 6 {
					cur.Lo = cur.Hi - 6
					sv.Field(i).Set(w.P, cur)
				}
			}
		}
	}
	return mv
}

// isoCfg is a world where randomness is known.
func isoCfg() *absint.Config {
	cfg := c14Cfg()
	cfg.MaxLoop = 5000
	cfg.SpareCap = true
	for _, pkg := range []string{"math/rand.", "math/rand/v2."} {
		for _, f := range []string{"Float32", "Float64"} {
			cfg.Hooks[pkg+f] = func(c *absint.Call) (Val, bool) { return absint.MkFloat(resType(c), 0.5), true }
		}
	}
	return cfg
}

// scenario runs two or three writes with every read in between. What's called is a model, or a server in front of the
// model: then the model's methods write too.
func (w *isoWorld) scenario(store, mv Val, model, ms isoMethods, n int) (done []string) {
	keys := []string{"b"}
	w.state = func() string { return w.stateOf(store) }
	w.last = w.state()
	// content
	adds := false
	for _, f := range model.writers {
		adds = adds || strings.HasPrefix(f.Name(), "Create") || strings.HasPrefix(f.Name(), "Add")
	}
	for _, f := range model.writers {
		if strings.HasPrefix(f.Name(), "Create") || strings.HasPrefix(f.Name(), "Add") || !adds && strings.HasPrefix(f.Name(), "Update") {
			ok, res := w.do(isoOp{recv: store, fn: f, variant: 2, create: !adds}, keys, true, "initial")
			if !ok {
				continue
			}
			if mv == store {
				done = append(done, f.Name())
			}
			for _, v := range res {
				for _, m := range w.messagesIn(v, 3) {
					if id := w.idOf(m); id != "" && id != "b" {
						keys = append([]string{id}, keys...)
					}
				}
			}
		}
	}
	keys = append(keys, "a")
	if len(keys) > 3 {
		keys = append(keys[:2:2], "b")
	}
	var wops []isoOp
	for _, f := range ms.writers {
		for _, o := range isoOps(f, len(keys)) {
			o.recv = mv
			wops = append(wops, o)
		}
	}
	if mv != store {
		for _, f := range model.writers {
			for _, o := range isoOps(f, 1)[:1] {
				o.recv = store
				wops = append(wops, o)
			}
		}
	}
	open := func(what string, masked bool) {
		for _, f := range ms.pulls {
			for _, o := range isoOps(f, 1) {
				if (o.mask != nil) == masked && o.variant == 0 {
					o.recv = mv
					w.subscribe(o, keys, what)
				}
			}
		}
	}
	read := func(what string) {
		for _, f := range ms.readers {
			for _, o := range isoOps(f, len(keys)) {
				if o.variant == 0 || o.mask != nil {
					o.recv = mv
					w.do(o, keys, false, what)
				}
			}
		}
	}
	first := 0
	open("early", false)
	open("early", true)
	read("first")
	for i := 0; i < n && len(wops) > 0; i++ {
		pick := 0
		few := 14
		if w.C.Tier == "thorough" {
			few = 28
		}
		if i == 2 {
			few = 4
		}
		if i > 0 && len(wops) > few {
			pick = (first*5 + 7*w.Pick(fmt.Sprint("op next ", i), few) + 3*(i-1)) % len(wops)
		} else {
			pick = w.Pick(fmt.Sprint("op ", i), len(wops))
			first = pick
		}
		o := wops[pick]
		if ok, _ := w.do(o, keys, true, fmt.Sprint("write ", i+1)); ok && o.recv == mv {
			done = append(done, o.fn.Name())
		}
		if i == 0 || n > 2 {
			read("second")
			open("late", false)
		}
	}
	open("last", true)
	read("last")
	return
}

// idOf is the id a message has.
func (s *Scn) idOf(m Val) string {
	sv := tmStruct(s.P, m)
	if sv == nil {
		return ""
	}
	for _, fl := range tmFields(sv.T) {
		if fl.name == "id" {
			x, _ := tmGet(s.P, sv, fl)
			id, _ := absint.StringConst(s.P.Resolve(x))
			return id
		}
	}
	return ""
}

func c07Models(c *Ctx) {
	models := c.models()
	c.Count("models", len(models))
	if len(models) < 25 {
		c.Undecided("model-isolated", "enumeration", 0, "found %d models", len(models))
	}
	n := 0
	for _, m := range models {
		n += c.isolated("model-isolated", m, nil)
	}
	c.Count("writing methods of models", n)
}

// isoServer is a server in front of a model.
type isoServer struct {
	t    *types.Named
	ctor *ssa.Function
	m    *model
}

func c07Servers(c *Ctx) {
	n, ns := 0, 0
	for _, m := range c.models() {
		sp := c.Pkg(m.pkg)
		for _, name := range sortedKeys(sp.Members) {
			f, ok := sp.Members[name].(*ssa.Function)
			if !ok || f.Object() == nil || !f.Object().Exported() || !strings.HasPrefix(name, "New") || f.Signature.Params().Len() == 0 || f.Signature.Results().Len() != 1 {
				continue
			}
			pt, ok := f.Signature.Params().At(0).Type().(*types.Pointer)
			if !ok || !types.Identical(pt.Elem(), m.t) {
				continue
			}
			rt, ok := f.Signature.Results().At(0).Type().(*types.Pointer)
			if !ok {
				continue
			}
			t, ok := rt.Elem().(*types.Named)
			if !ok || t.Obj().Pkg() != sp.Pkg {
				continue
			}
			ns++
			n += c.isolated("server-isolated", m, &isoServer{t, f, m})
		}
	}
	c.Count("servers", ns)
	c.Count("writing methods of servers", n)
	if ns < 22 {
		c.Undecided("server-isolated", "enumeration", 0, "found %d servers", ns)
	}
}

type okSet struct {
	sync.Mutex
	m map[string]bool
}

// isolated checks a type: a model, or the server in front of it. It returns how many methods write.
func (c *Ctx) isolated(rule string, m *model, srv *isoServer) int {
	t, construct, pos := m.t, m.String(), m.ctor.Pos()
	if srv != nil {
		t, pos = srv.t, srv.ctor.Pos()
		construct = m.pkg[strings.LastIndex(m.pkg, "/")+1:] + "." + t.Obj().Name()
	}
	own, ms := c.isoMethods(m.t), c.isoMethods(t)
	for _, f := range ms.others {
		c.mu.Lock()
		c.Notes = append(c.Notes, fmt.Sprintf("%s.%s is neither known to read nor to write", construct, f.Name()))
		c.mu.Unlock()
	}
	n := 2
	if c.Tier == "thorough" && m != nil && len(ms.writers) <= 3 {
		n = 3
	}
	okd := &okSet{m: map[string]bool{}}
	o := c.Explore(rule, construct, pos, isoCfg(), func(s *Scn) {
		w := &isoWorld{Scn: s}
		mv := w.model(m)
		v := mv
		if srv != nil {
			args := []Val{mv}
			if srv.ctor.Signature.Variadic() {
				args = append(args, absint.MkNil(srv.ctor.Signature.Params().At(srv.ctor.Signature.Params().Len()-1).Type()))
			}
			v = s.Call(srv.ctor, args...)[0]
		}
		done := w.scenario(mv, v, own, ms, n)
		okd.Lock()
		for _, d := range done {
			okd.m[d] = true
		}
		okd.Unlock()
	})
	if o == nil {
		return 0
	}
	for _, f := range ms.writers {
		if !okd.m[f.Name()] && o.OK {
			c.Undecided(rule, construct, f.Pos(), "%s never succeeds here", f.Name())
		}
	}
	return len(ms.writers)
}


// coreOp is an operation on a Value or a Collection. Msgs are those handed over.
type coreOp struct {
	name string
	read bool
	run  func(w *coreWorld) (res []Val, msgs []Val)
}

type coreWorld struct {
	*isoWorld
	r    Val
	coll bool
	t    types.Type
	got  Val // a message that was read before
}

func (w *coreWorld) kind() string {
	if w.coll {
		return "Collection"
	}
	return "Value"
}

func (w *coreWorld) call(method string, args ...Val) []Val {
	return w.M(w.r, resPkg, w.kind(), method, args...)
}

func (w *coreWorld) msg(variant int) Val { return w.rich(w.t, variant, fmt.Sprint("n", variant), nil) }

// looks is a callback that notes the message it gets.
func (w *coreWorld) looks(what string, res func(v Val) Val) Val {
	return w.Native(what, func(args []Val) Val {
		w.watch("the old message given to "+what, args[len(args)-1])
		return res(args[len(args)-1])
	})
}

// intercepts is an interceptor that changes the new message.
func (w *coreWorld) intercepts(what string, change func(m Val)) Val {
	return w.Native(what, func(args []Val) Val {
		if !absint.IsNilConst(w.P.Resolve(args[0])) {
			w.watch("the old message given to "+what, args[0])
		}
		change(absint.Unwrap(w.P.Resolve(args[1])))
		return absint.TupleV{}
	})
}

var coreMasks = [][]string{{}, {"location"}, {"location.title"}, {"traits"}, {"more"}, {"name", "nics"}, {"appearance.title", "appearance"}}

// coreWrites are combinations of options.
func coreWrites(coll bool) map[string]func(w *coreWorld, msg Val) []Val {
	mask := func(opt string, paths ...string) func(w *coreWorld, msg Val) []Val {
		return func(w *coreWorld, _ Val) []Val { return []Val{w.F(resPkg, opt, w.pm().mask(paths...))} }
	}
	r := map[string]func(w *coreWorld, msg Val) []Val{
		"plain": func(w *coreWorld, _ Val) []Val { return nil },
		"reset": mask("WithResetMask", "location", "more"),
		"reset deep": func(w *coreWorld, _ Val) []Val {
			return []Val{w.F(resPkg, "WithResetMask", w.pm().mask("location.title")), w.F(resPkg, "WithUpdateMask", w.pm().mask("nics"))}
		},
		"more": func(w *coreWorld, _ Val) []Val {
			return []Val{w.F(resPkg, "WithUpdateMask", w.pm().mask("name")), w.F(resPkg, "WithMoreUpdateMask", w.pm().mask("location"))}
		},
		"before": func(w *coreWorld, _ Val) []Val {
			return []Val{w.F(resPkg, "InterceptBefore", w.intercepts("InterceptBefore", func(m Val) { w.SetField(m, "Name", absint.MkString("before")) }))}
		},
		"before masked": func(w *coreWorld, _ Val) []Val {
			return []Val{w.F(resPkg, "InterceptBefore", w.intercepts("InterceptBefore", func(m Val) { w.SetField(m, "Name", absint.MkString("before")) })),
				w.F(resPkg, "WithUpdateMask", w.pm().mask("name", "traits"))}
		},
		"after": func(w *coreWorld, _ Val) []Val {
			return []Val{w.F(resPkg, "InterceptAfter", w.intercepts("InterceptAfter", func(m Val) { w.scribble(m) }))}
		},
		"after masked": func(w *coreWorld, _ Val) []Val {
			return []Val{w.F(resPkg, "InterceptAfter", w.intercepts("InterceptAfter", func(m Val) { w.scribble(m) })),
				w.F(resPkg, "WithUpdateMask", w.pm().mask("name"))}
		},
		"expected": func(w *coreWorld, _ Val) []Val {
			if w.got == nil {
				return nil
			}
			return []Val{w.F(resPkg, "WithExpectedValue", Iface(w.got))}
		},
		"check": func(w *coreWorld, _ Val) []Val {
			return []Val{w.F(resPkg, "WithExpectedCheck", w.looks("WithExpectedCheck", func(Val) Val { return absint.MkNil(errType) }))}
		},
		"check fails": func(w *coreWorld, _ Val) []Val {
			return []Val{w.F(resPkg, "WithExpectedCheck", w.looks("WithExpectedCheck", func(Val) Val { return w.P.MkErr(absint.MkInt(9), absint.MkString("no")) }))}
		},
		"all writable": func(w *coreWorld, _ Val) []Val { return []Val{w.F(resPkg, "WithAllFieldsWritable")} },
		"more writable": func(w *coreWorld, _ Val) []Val {
			return []Val{w.F(resPkg, "WithMoreWritableFields", w.pm().mask("more"))}
		},
		"time": func(w *coreWorld, _ Val) []Val {
			return []Val{w.F(resPkg, "WithWriteTime", mkTime(w.P, w.C.ExtType("time", "Time"), time.Unix(77, 0).UTC()))}
		},
	}
	for _, m := range coreMasks {
		r["mask "+strings.Join(m, "+")] = mask("WithUpdateMask", m...)
	}
	if coll {
		r["create"] = func(w *coreWorld, _ Val) []Val { return []Val{w.F(resPkg, "WithCreateIfAbsent")} }
		r["create intercepted"] = func(w *coreWorld, msg Val) []Val {
			return append(r["after"](w, msg), w.F(resPkg, "WithCreateIfAbsent"))
		}
	}
	return r
}

// coreReads are combinations of options.
func coreReads(list bool) map[string]func(w *coreWorld) []Val {
	r := map[string]func(w *coreWorld) []Val{"plain": func(w *coreWorld) []Val { return nil }}
	for _, m := range coreMasks {
		r["mask "+strings.Join(m, "+")] = func(w *coreWorld) []Val {
			return []Val{w.F(resPkg, "WithReadMask", w.pm().mask(m...))}
		}
	}
	if list {
		include := func(w *coreWorld) Val {
			return w.F(resPkg, "WithInclude", w.Native("include", func(args []Val) Val {
				if v := w.P.Resolve(args[1]); !absint.IsNilConst(v) {
					w.watch("the message given to an include function", v)
				}
				id, _ := absint.StringConst(w.P.Resolve(args[0]))
				return absint.MkBool(id != "b")
			}))
		}
		r["include"] = func(w *coreWorld) []Val { return []Val{include(w)} }
		r["include masked"] = func(w *coreWorld) []Val {
			return []Val{include(w), w.F(resPkg, "WithReadMask", w.pm().mask("location", "name"))}
		}
	}
	return r
}

func coreOps(coll bool) (writes, reads []coreOp) {
	ws := coreWrites(coll)
	for _, n := range sortedKeys(ws) {
		opts := ws[n]
		for variant := 0; variant < 2; variant++ {
			if !coll {
				writes = append(writes, coreOp{name: fmt.Sprintf("Set(variant %d, %s)", variant, n), run: func(w *coreWorld) ([]Val, []Val) {
					m := w.msg(variant)
					return w.call("Set", append([]Val{Iface(m)}, opts(w, m)...)...), []Val{m}
				}})
				continue
			}
			if n == "expected" && variant == 1 {
				continue
			}
			id := []string{"a", "b"}[variant]
			writes = append(writes, coreOp{name: fmt.Sprintf("Update(%s, %s)", id, n), run: func(w *coreWorld) ([]Val, []Val) {
				m := w.msg(variant)
				return w.call("Update", append([]Val{absint.MkString(id), Iface(m)}, opts(w, m)...)...), []Val{m}
			}})
		}
	}
	if coll {
		for _, id := range []string{"b", ""} {
			writes = append(writes, coreOp{name: fmt.Sprintf("Add(%q)", id), run: func(w *coreWorld) ([]Val, []Val) {
				m := w.msg(1)
				args := []Val{absint.MkString(id), Iface(m)}
				if id == "" {
					args = append(args, w.F(resPkg, "WithGenIDIfAbsent"), w.F(resPkg, "WithIDCallback", w.Native("id", func(a []Val) Val {
						w.SetField(m, "Name", a[0])
						return absint.TupleV{}
					})))
				}
				return w.call("Add", args...), []Val{m}
			}})
		}
		for _, n := range []string{"plain", "expected", "check", "check fails"} {
			writes = append(writes, coreOp{name: "Delete(a, " + n + ")", run: func(w *coreWorld) ([]Val, []Val) {
				return w.call("Delete", append([]Val{absint.MkString("a")}, ws[n](w, nil)...)...), nil
			}})
		}
	}
	// a message that was read is written
	writes = append(writes, coreOp{name: "write what was read", run: func(w *coreWorld) ([]Val, []Val) {
		m := w.got
		if m == nil {
			m = w.msg(0)
		}
		if coll {
			return w.call("Update", absint.MkString("b"), Iface(m), w.F(resPkg, "WithCreateIfAbsent")), nil
		}
		return w.call("Set", Iface(m), w.F(resPkg, "WithUpdateMask", w.pm().mask("location", "traits"))), nil
	}})
	rs := coreReads(false)
	for _, n := range sortedKeys(rs) {
		opts := rs[n]
		reads = append(reads, coreOp{name: "Get(" + n + ")", read: true, run: func(w *coreWorld) ([]Val, []Val) {
			var args []Val
			if coll {
				args = append(args, absint.MkString("a"))
			}
			res := w.call("Get", append(args, opts(w)...)...)
			if n == "plain" {
				if m := w.messagesIn(res[0], 0); len(m) > 0 {
					w.got = m[0]
				}
			}
			return res, nil
		}})
	}
	if coll {
		rs := coreReads(true)
		for _, n := range sortedKeys(rs) {
			opts := rs[n]
			reads = append(reads, coreOp{name: "List(" + n + ")", read: true, run: func(w *coreWorld) ([]Val, []Val) {
				return w.call("List", opts(w)...), nil
			}})
		}
	}
	return
}

func (w *coreWorld) do(o coreOp, what string) {
	if w.ended {
		return
	}
	what += " " + o.name
	before := w.last
	res, msgs := o.run(w)
	for _, r := range res {
		w.watch("what "+what+" returned", r)
	}
	w.P.Settle()
	w.check(what)
	w.last = w.state()
	if o.read && !w.ended && w.last != before {
		w.ended = true
		w.Fail("%s only reads, but changes what's stored\n before %s\n after %s", what, before, w.last)
		return
	}
	for _, m := range msgs {
		w.scribble(m)
	}
	if now := w.state(); now != w.last && !w.ended {
		w.ended = true
		w.Fail("changing the message handed to %s afterwards changes what's stored\n before %s\n after %s", what, w.last, now)
		return
	}
	w.check("changing the message handed to " + what)
	for _, m := range msgs {
		w.watch("the message handed to "+what, m)
	}
}

// follow opens a stream.
func (w *coreWorld) follow(what, method string, opts []Val) {
	if w.ended {
		return
	}
	ctx := w.Ctx(w.P.Fresh("ctx"))
	args := []Val{ctx}
	if method == "PullID" {
		args = append(args, absint.MkString("a"))
	}
	ch := w.call(method, append(args, opts...)...)[0]
	n := 0
	w.P.Spawn("reader", func() {
		for {
			v, ok := w.P.ChanRecv(ch)
			if !ok {
				return
			}
			n++
			w.watch(fmt.Sprintf("event %d of %s", n, what), v)
		}
	})
	w.P.Settle()
	w.check("opening " + what)
	if now := w.state(); now != w.last && !w.ended {
		w.ended = true
		w.Fail("opening %s changes what's stored\n before %s\n after %s", what, w.last, now)
	}
}

func (w *coreWorld) followAll(what string) {
	methods := []string{"Pull"}
	if w.coll {
		methods = append(methods, "PullID")
	}
	for _, m := range methods {
		rs := coreReads(w.coll && m == "Pull")
		for _, n := range sortedKeys(rs) {
			w.follow(what+" "+m+"("+n+")", m, rs[n](w))
		}
		w.follow(what+" "+m+"(updates only)", m, []Val{w.F(resPkg, "WithUpdatesOnly", absint.MkBool(true))})
		w.follow(what+" "+m+"(no backpressure)", m, []Val{w.F(resPkg, "WithBackpressure", absint.MkBool(false))})
	}
}

func c07Core(c *Ctx) {
	t := c.ExtType(traitsPkg, "Metadata")
	for _, coll := range []bool{false, true} {
		name := "Value"
		if coll {
			name = "Collection"
		}
		writes, reads := coreOps(coll)
		c.Count("operations of "+name, len(writes)+len(reads))
		for ci, conf := range []string{"plain", "no duplicates", "writable fields", "empty"} {
			ctor := c.Fn(resPkg, "New"+name)
			c.Explore("core-isolated", name+" ("+conf+")", ctor.Pos(), isoCfg(), func(s *Scn) {
				w := &coreWorld{isoWorld: &isoWorld{Scn: s}, coll: coll, t: t}
				opts := []Val{s.F(resPkg, "WithClock", s.clock())}
				initial := w.msg(2)
				if ci != 3 {
					if coll {
						opts = append(opts, s.F(resPkg, "WithInitialRecord", strID("a"), Iface(initial)))
					} else {
						opts = append(opts, s.F(resPkg, "WithInitialValue", Iface(initial)))
					}
				} else if !coll {
					opts = append(opts, s.F(resPkg, "WithInitialValue", Iface(s.build(t, map[string]any{}))))
				}
				switch ci {
				case 1:
					opts = append(opts, s.F(resPkg, "WithNoDuplicates"))
				case 2:
					opts = append(opts, s.F(resPkg, "WithWritableFields", w.pm().mask("location", "name", "nics", "traits", "appearance.title")))
				}
				w.r = s.F(resPkg, "New"+name, opts...)
				w.state = func() (r string) {
					s.P.Quiet(func() {
						if !coll {
							r = s.render(s.call1(w.r, "Value", "Get"))
							return
						}
						for _, v := range s.list(s.call1(w.r, "Collection", "List")) {
							r += s.render(v) + "\n"
						}
					})
					return
				}
				w.last = w.state()
				first := s.Pick("first", len(writes))
				second := 0
				if c.Tier == "thorough" {
					second = s.Pick("second", len(writes))
				} else {
					n := 2
					if ci == 0 {
						n = 6
					}
					second = (first*5 + 7*s.Pick("second", n)) % len(writes)
				}
				w.followAll("early")
				for _, o := range reads {
					w.do(o, "first")
				}
				w.do(writes[first], "write 1")
				w.do(reads[0], "second")
				w.follow("late Pull", "Pull", nil)
				w.do(writes[second], "write 2")
				for _, o := range reads {
					w.do(o, "last")
				}
			})
		}
	}
}

func (s *Scn) call1(r Val, typ, method string) Val { return s.M(r, resPkg, typ, method)[0] }

// c07Masks decides what's assumed about package masks above: writes don't share parts of the caller's message, reads
// with a mask don't touch what's stored.
func c07Masks(c *Ctx) {
	merge := c.Method(masksPkg, "FieldUpdater", "Merge")
	for _, sh := range maskShapes(c.Tier == "thorough") {
		for _, r := range sh.r {
			name := "Merge of " + sh.name
			if r != nil {
				name += ", reset " + maskName(r)
			}
			c.Explore("masks-isolated", name, merge.Pos(), focusCfg(pmCfg(&absint.Config{MaxLoop: 30}), false), func(s *Scn) {
				m := s.pm()
				ws, us := every(sh.w, 3), sh.m
				w, u := ws[s.Pick("writable", len(ws))], us[s.Pick("update mask", len(us))]
				up := s.F(masksPkg, "NewFieldUpdater",
					s.F(masksPkg, "WithWritableFields", m.maskOrNil(w)),
					s.F(masksPkg, "WithUpdateMask", m.maskOrNil(u)),
					s.F(masksPkg, "WithResetMask", m.maskOrNil(r)))
				dst, src := m.newMsg(sh.t, "old"), m.newMsg(sh.t, "new")
				s.focus(sh.t)
				if s.Code(s.M(up, masksPkg, "FieldUpdater", "Validate", m.val(src))[0]) != "OK" {
					return
				}
				s0 := m.clone(src)
				s.M(up, masksPkg, "FieldUpdater", "Merge", m.val(dst), m.val(src))
				what := fmt.Sprintf("update %s of writable %s", maskName(u), maskName(w))
				for _, d := range m.diff(s0, src, nil, "") {
					s.Fail("%s modifies the written message: %s", what, d)
				}
				theirs := map[any]bool{}
				m.parts(src, "", func(x any, _ string) { theirs[x] = true })
				m.parts(dst, "", func(x any, path string) {
					if theirs[x] {
						s.Fail("%s: the result shares %s with the written message", what, path)
					}
				})
			})
		}
	}
	clone := c.Method(masksPkg, "ResponseFilter", "FilterClone")
	for _, sh := range maskShapes(false) {
		masks := readMasks(sh.t)
		c.Explore("masks-isolated", "FilterClone of "+sh.name, clone.Pos(), focusCfg(pmCfg(&absint.Config{MaxLoop: 30}), false), func(s *Scn) {
			m := s.pm()
			mask := masks[s.Pick("mask", len(masks))]
			f := s.F(masksPkg, "NewResponseFilter", s.F(masksPkg, "WithFieldMask", m.maskOrNil(mask)))
			x := m.newMsg(sh.t, "old")
			s.focus(sh.t)
			if s.Code(s.M(f, masksPkg, "ResponseFilter", "Validate", m.val(x))[0]) != "OK" {
				return
			}
			x0 := m.clone(x)
			s.M(f, masksPkg, "ResponseFilter", "FilterClone", m.val(x))
			for _, d := range m.diff(x0, x, nil, "") {
				s.Fail("FilterClone with %s modifies its argument: %s", maskName(mask), d)
			}
		})
	}
}

// parts visits everything in a message that could be changed in place.
func (m *pm) parts(x *pmsg, path string, f func(x any, path string)) {
	f(x, path)
	for _, fl := range x.t.fields {
		v := x.f[fl.name]
		if v == nil || fl.kind == "scalar" || fl.kind == "optional" {
			continue
		}
		at := path + "." + fl.name
		f(v, at)
		if v.m != nil {
			m.parts(v.m, at, f)
		}
		for i, e := range v.list {
			if e.m != nil {
				m.parts(e.m, fmt.Sprintf("%s[%d]", at, i), f)
			}
		}
	}
}
