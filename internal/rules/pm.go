package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"scverify/internal/absint"
)

// A model of protobuf messages seen through protoreflect: messages of a small message type whose fields are unknown until
// something looks at them.

const (
	prPkg   = "google.golang.org/protobuf/reflect/protoreflect"
	protoNS = "google.golang.org/protobuf/proto."
	fmNS    = "google.golang.org/protobuf/types/known/fieldmaskpb"
)

type ptype struct {
	name   string
	fields []*pfield
}

func (t *ptype) field(name string) *pfield {
	for _, f := range t.fields {
		if f.name == name {
			return f
		}
	}
	return nil
}

// pfield is a field, kind is scalar, optional, message, list or map.
type pfield struct {
	name string
	kind string
	num  int
	elem string // kind of the scalar, or message
	msg  *ptype // the type of messages
	in   *ptype
}

// mkType builds a type from "name:kind[:elem]" descriptions and nested types.
func mkType(name string, fields ...*pfield) *ptype {
	t := &ptype{name: name}
	for i, f := range fields {
		g := *f
		g.in, g.num = t, i+1
		t.fields = append(t.fields, &g)
	}
	return t
}

func pscalar(name string) *pfield   { return &pfield{name: name, kind: "scalar", elem: "string"} }
func poptional(name string) *pfield { return &pfield{name: name, kind: "optional", elem: "string"} }
func plist(name string) *pfield     { return &pfield{name: name, kind: "list", elem: "string"} }
func pmap(name string) *pfield      { return &pfield{name: name, kind: "map", elem: "string"} }
func plistOf(name string, t *ptype) *pfield {
	return &pfield{name: name, kind: "list", elem: "message", msg: t}
}
func pmessage(name string, t *ptype) *pfield {
	return &pfield{name: name, kind: "message", elem: "message", msg: t}
}

type pmsg struct {
	t        *ptype
	f        map[string]*pval
	org      string // what the fields nobody looked at are part of
	readonly bool
	id       int
	sym      Val
	unknown  []byte
	native   Val // the value for messages of well known types
}

// pval is the content of a field. Until resolved org says what it's a copy of.
type pval struct {
	org  string
	set  bool
	term string
	c    Val // what's known about a scalar
	m    *pmsg
	list []*pval
	key  string // of a map entry
}

// pm is the protobuf model of a path.
type pm struct {
	s   *Scn
	obj map[string]any
	n   int
}

func (s *Scn) pm() *pm {
	if m, ok := s.P.Data["pm"].(*pm); ok {
		return m
	}
	m := &pm{s: s, obj: map[string]any{}}
	s.P.Data["pm"] = m
	return m
}

func (m *pm) handle(kind string, t types.Type, o any) Val {
	key := m.s.P.Fresh("pm." + kind)
	m.obj[key] = o
	m.s.P.SetFact("nil:"+key, 1)
	return &absint.Sym{Key: key, T: t, Op: "pm", NonNil: true}
}

func (m *pm) object(v Val) any {
	v = absint.Unwrap(m.s.P.Resolve(v))
	if s, ok := v.(*absint.Sym); ok && s.Op == "pm" {
		return m.obj[s.Key]
	}
	return nil
}

// newMsg creates a message that's a copy of something unknown, or empty.
func (m *pm) newMsg(t *ptype, org string) *pmsg {
	m.n++
	return &pmsg{t: t, f: map[string]*pval{}, org: org, id: m.n}
}

// val is the interface value for a message.
func (m *pm) val(x *pmsg) Val {
	if x.sym == nil {
		x.sym = m.handle("msg", m.s.C.protoMessage(), x)
	}
	return x.sym
}

// msg is the message of an interface value.
func (m *pm) msg(v Val) *pmsg {
	x, _ := m.object(v).(*pmsg)
	return x
}

func (m *pm) field(x *pmsg, f *pfield) *pval {
	if v, ok := x.f[f.name]; ok {
		return v
	}
	v := &pval{}
	if x.org != "" {
		v.org = x.org + "." + f.name
	}
	x.f[f.name] = v
	return v
}

// known resolves a field as far as that's possible without deciding anything.
func (m *pm) known(v *pval, f *pfield) bool {
	if v.org == "" {
		return true
	}
	if f.kind == "list" || f.kind == "map" {
		if _, ok := m.s.P.Fact("in:len:" + v.org); !ok {
			return false
		}
	} else if _, ok := m.s.P.Fact("in:has:" + v.org); !ok {
		return false
	}
	m.has(v, f)
	return true
}

// has returns whether a field is present, and resolves it.
func (m *pm) has(v *pval, f *pfield) bool {
	if v.org != "" {
		org := v.org
		v.org = ""
		switch f.kind {
		case "list", "map":
			n := m.s.Pick("len:"+org, 3)
			for i := 0; i < n; i++ {
				e := &pval{set: true, term: fmt.Sprintf("%s[%d]", org, i)}
				if f.msg != nil {
					e.m = m.newMsg(f.msg, e.term)
				}
				v.list = append(v.list, e)
			}
			v.set = n > 0
		default:
			v.set = m.s.Bool("has:" + org)
			if v.set {
				v.term = org
				if f.msg != nil {
					v.m = m.newMsg(f.msg, org)
				}
			}
		}
	}
	return v.set
}

func (m *pm) cloneVal(v *pval) *pval {
	n := *v
	if v.m != nil {
		n.m = m.clone(v.m)
	}
	n.list = nil
	for _, e := range v.list {
		n.list = append(n.list, m.cloneVal(e))
	}
	return &n
}

func (m *pm) clone(x *pmsg) *pmsg {
	n := m.newMsg(x.t, x.org)
	n.unknown, n.native = x.unknown, x.native
	for k, v := range x.f {
		n.f[k] = m.cloneVal(v)
	}
	return n
}

func (m *pm) mutable(x *pmsg) {
	if x.readonly {
		m.s.P.Fail("an empty read-only message is modified")
	}
	if h, ok := m.s.P.Data["pm.onmutate"].(func(*pmsg)); ok {
		h(x)
	}
}

func (m *pm) reset(x *pmsg) {
	m.mutable(x)
	x.org = ""
	x.f = map[string]*pval{}
}

// merge is proto.Merge.
func (m *pm) merge(dst, src *pmsg) {
	if dst.t != src.t {
		m.s.P.Fail("merge of messages of different types")
		return
	}
	m.mutable(dst)
	for _, f := range dst.t.fields {
		d, s := m.field(dst, f), m.field(src, f)
		if d.org == "" && !d.set {
			dst.f[f.name] = m.cloneVal(s)
			continue
		}
		if !m.has(s, f) {
			continue
		}
		switch {
		case f.kind == "list" || f.kind == "map":
			m.has(d, f)
			for _, e := range s.list {
				d.list = append(d.list, m.cloneVal(e))
			}
			d.set = true
		case f.msg != nil:
			if !m.has(d, f) {
				dst.f[f.name] = m.cloneVal(s)
				continue
			}
			m.merge(d.m, s.m)
		default:
			dst.f[f.name] = &pval{set: true, term: s.term}
		}
	}
}

// render describes a message. Nothing is decided.
func (m *pm) render(x *pmsg) string {
	if x == nil {
		return "nil"
	}
	var sb strings.Builder
	sb.WriteString("{")
	for _, f := range x.t.fields {
		if r := m.renderVal(m.field(x, f), f); r != "" {
			fmt.Fprintf(&sb, "%s=%s ", f.name, r)
		}
	}
	return strings.TrimSpace(sb.String()) + "}"
}

func (m *pm) renderVal(v *pval, f *pfield) string {
	if !m.known(v, f) {
		return "@" + v.org
	}
	if !v.set {
		return ""
	}
	switch {
	case f.kind == "list" || f.kind == "map":
		var es []string
		for _, e := range v.list {
			if e.m != nil {
				es = append(es, m.render(e.m))
			} else {
				es = append(es, e.term)
			}
		}
		return "[" + strings.Join(es, " ") + "]"
	case v.m != nil:
		return m.render(v.m)
	}
	return "@" + v.term
}

// diff compares messages, it returns the paths where they differ. Messages that are loose in want may be empty instead of
// absent.
func (m *pm) diff(want, got *pmsg, loose map[string]bool, path string) []string {
	var r []string
	for _, f := range want.t.fields {
		p := f.name
		if path != "" {
			p = path + "." + f.name
		}
		a, b := m.field(want, f), m.field(got, f)
		if f.kind == "message" && loose[p] {
			ka, kb := m.known(a, f), m.known(b, f)
			if ka && kb {
				am, bm := a.m, b.m
				if am == nil || !a.set {
					am = m.newMsg(f.msg, "")
				}
				if bm == nil || !b.set {
					bm = m.newMsg(f.msg, "")
				}
				r = append(r, m.diff(am, bm, loose, p)...)
				continue
			}
		}
		if x, y := m.renderVal(a, f), m.renderVal(b, f); x != y {
			if f.kind == "message" && a.set && b.set && a.m != nil && b.m != nil {
				r = append(r, m.diff(a.m, b.m, loose, p)...)
				continue
			}
			r = append(r, fmt.Sprintf("%s is %s instead of %s", p, orAbsent(y), orAbsent(x)))
		}
	}
	return r
}

func orAbsent(s string) string {
	if s == "" {
		return "absent"
	}
	return s
}

var pkinds = map[string]int64{"fixed32": 7, "fixed64": 6, "sfixed32": 15, "sfixed64": 16, "group": 10, "bool": 8, "enum": 14, "int32": 5, "sint32": 17, "uint32": 13, "int64": 3, "sint64": 18, "uint64": 4, "float": 2, "double": 1, "string": 9, "bytes": 12, "message": 11}

type pref struct{ x *pmsg }

// pvalue is a protoreflect.Value.
type pvalue struct {
	x *pmsg
	f *pfield
	v *pval
	// element of a list
	elem bool
}
type pelems struct {
	f *pfield
	v *pval
	x *pmsg
}
type pfields struct{ t *ptype }
type pmapkey struct{ k string }

// pbytes is a known bytes value.
type pbytes []byte

func scalarType(elem string) types.Type {
	switch elem {
	case "bool":
		return types.Typ[types.Bool]
	case "float", "double":
		return types.Typ[types.Float64]
	case "string":
		return types.Typ[types.String]
	case "uint32", "uint64", "fixed32", "fixed64":
		return types.Typ[types.Uint64]
	case "bytes":
		return types.NewSlice(types.Typ[types.Byte])
	}
	return types.Typ[types.Int64]
}

func scalarZero(elem string) Val {
	switch elem {
	case "bool":
		return absint.MkBool(false)
	case "float", "double":
		return absint.MkFloat(types.Typ[types.Float64], 0)
	case "string":
		return absint.MkString("")
	case "bytes":
		return pbytes(nil)
	}
	return absint.Const{T: scalarType(elem), V: constant.MakeInt64(0)}
}

func kindOK(method, elem string) bool {
	switch method {
	case "Bool":
		return elem == "bool"
	case "Float":
		return elem == "float" || elem == "double"
	case "Uint":
		return elem == "uint32" || elem == "uint64" || elem == "fixed32" || elem == "fixed64"
	case "Int":
		return elem == "int32" || elem == "int64" || elem == "sint32" || elem == "sint64" || elem == "sfixed32" || elem == "sfixed64"
	case "Bytes":
		return elem == "bytes"
	case "Enum":
		return elem == "enum"
	case "String":
		return elem == "string"
	}
	return true
}

// bytes is a slice of known bytes.
func (m *pm) bytes(t types.Type, b []byte) Val {
	var vs []Val
	for _, x := range b {
		vs = append(vs, absint.Const{T: types.Typ[types.Byte], V: constant.MakeInt64(int64(x))})
	}
	sl := m.s.P.MkSlice(types.NewSlice(types.Typ[types.Byte]), "bytes", vs...)
	sl.T = t
	return sl
}

func (m *pm) bytesOf(v Val) ([]byte, bool) {
	v = m.s.P.Resolve(v)
	if m.s.P.IsNil(v) {
		return nil, true
	}
	sl, ok := v.(absint.SliceV)
	if !ok {
		return nil, false
	}
	var r []byte
	for i := sl.Lo; i < sl.Hi; i++ {
		n, ok := absint.IntConst(m.s.P.Resolve(sl.Arr.Cells[i].Load()))
		if !ok {
			return nil, false
		}
		r = append(r, byte(n))
	}
	return r, true
}

// pmCfg makes the protobuf model work: protoreflect, proto.Clone and friends, and field masks.
func pmCfg(cfg *absint.Config) *absint.Config {
	oldInline := cfg.Inline
	cfg.Inline = func(fn *ssa.Function) bool {
		if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/mennanov/fmutils") {
			return true
		}
		if fn.Parent() != nil && fn.Parent().Pkg != nil && strings.HasPrefix(fn.Parent().Pkg.Pkg.Path(), "github.com/mennanov/fmutils") {
			return true
		}
		return oldInline != nil && oldInline(fn)
	}
	old := cfg.Hook
	cfg.Hook = func(c *absint.Call) (Val, bool) {
		m, ok := c.P.Data["pm"].(*pm)
		if ok {
			if v, ok := m.call(c); ok {
				return v, true
			}
		}
		if old != nil {
			return old(c)
		}
		return nil, false
	}
	return cfg
}

func (m *pm) typ(name string) types.Type { return m.s.C.ExtType(prPkg, name) }

func (m *pm) value(v *pvalue) Val { return m.handle("value", m.typ("Value"), v) }
func (m *pm) fd(f *pfield) Val {
	return m.handleOnce("fd:"+f.in.name+"."+f.name, m.typ("FieldDescriptor"), f)
}
func (m *pm) md(t *ptype) Val {
	return m.handleOnce("md:"+t.name, m.typ("MessageDescriptor"), t)
}
func (m *pm) handleOnce(key string, t types.Type, o any) Val {
	key = "pm." + key
	m.obj[key] = o
	m.s.P.SetFact("nil:"+key, 1)
	return &absint.Sym{Key: key, T: t, Op: "pm", NonNil: true}
}
func (m *pm) reflect(x *pmsg) Val {
	return m.handle("reflect", m.typ("Message"), &pref{x})
}

func (m *pm) call(c *absint.Call) (Val, bool) {
	name := c.Name[strings.LastIndex(c.Name, ".")+1:]
	if c.Recv == nil && c.Fn != nil {
		if v, ok := m.fn(c); ok {
			return v, true
		}
		if c.Sig.Recv() == nil || len(c.Args) == 0 {
			return nil, false
		}
		o := m.object(c.Args[0])
		if o == nil {
			return nil, false
		}
		return m.method(c, o, name, c.Args[1:])
	}
	if c.Recv == nil {
		return nil, false
	}
	o := m.object(c.Recv)
	if o == nil {
		return nil, false
	}
	return m.method(c, o, name, c.Args)
}

func (m *pm) method(c *absint.Call, o any, name string, args []Val) (Val, bool) {
	p := m.s.P
	stuck := func() (Val, bool) {
		p.Stuck("%s isn't part of the model of protobuf", c.Name)
		return nil, false
	}
	switch x := o.(type) {
	case *pmsg:
		switch name {
		case "ProtoReflect":
			return m.reflect(x), true
		}
		return nil, false
	case *pref:
		fd := func(i int) *pfield {
			f, ok := m.object(args[i]).(*pfield)
			if !ok {
				p.Stuck("field descriptor %s", absint.Key(args[i]))
			}
			if f.in != x.x.t {
				m.s.Stop("%s of a field of another message: panics", name)
			}
			return f
		}
		switch name {
		case "Interface":
			if x.x.native != nil {
				return x.x.native, true
			}
			return m.val(x.x), true
		case "IsValid":
			return absint.MkBool(!x.x.readonly), true
		case "Descriptor":
			return m.md(x.x.t), true
		case "Has":
			f := fd(0)
			return absint.MkBool(m.has(m.field(x.x, f), f)), true
		case "Get":
			f := fd(0)
			v := m.field(x.x, f)
			if f.kind == "message" || f.kind == "list" || f.kind == "map" {
				m.has(v, f)
			}
			return m.value(&pvalue{x: x.x, f: f, v: v}), true
		case "Mutable":
			f := fd(0)
			m.mutable(x.x)
			v := m.field(x.x, f)
			if !m.has(v, f) && f.kind == "message" {
				v.set, v.m = true, m.newMsg(f.msg, "")
			}
			return m.value(&pvalue{x: x.x, f: f, v: v}), true
		case "Clear":
			f := fd(0)
			m.mutable(x.x)
			x.x.f[f.name] = &pval{}
			return absint.TupleV{}, true
		case "Set":
			f := fd(0)
			m.mutable(x.x)
			v, ok := m.object(args[1]).(*pvalue)
			if !ok {
				return stuck()
			}
			if v.f.kind == "of" && (f.kind != "scalar" && f.kind != "optional" || f.elem != v.f.elem) {
				m.s.Stop("Set of a %s of %s to a %s panics", f.kind, f.elem, v.f.elem)
			}
			if v.f.kind == "of" && f.kind == "scalar" {
				if str, ok := absint.StringConst(v.v.c); ok {
					x.x.f[f.name] = &pval{set: str != "", c: v.v.c}
					return absint.TupleV{}, true
				}
			}
			x.x.f[f.name] = v.v // shared, as with the real thing
			return absint.TupleV{}, true
		case "NewField":
			f := fd(0)
			v := &pval{}
			if f.kind == "message" {
				v.set, v.m = true, m.newMsg(f.msg, "")
			}
			return m.value(&pvalue{x: x.x, f: f, v: v}), true
		case "New":
			return m.reflect(m.newMsg(x.x.t, "")), true
		case "Range":
			// the order isn't specified
			fs := append([]*pfield{}, x.x.t.fields...)
			if len(fs) > 1 && p.ChooseBool("in:range from the end") {
				sort.SliceStable(fs, func(i, j int) bool { return fs[i].num > fs[j].num })
			}
			for _, f := range fs {
				v := m.field(x.x, f)
				if !m.has(v, f) {
					continue
				}
				if !p.Truth(p.CallValue(args[0], m.fd(f), m.value(&pvalue{x: x.x, f: f, v: v}))) {
					break
				}
			}
			return absint.TupleV{}, true
		case "GetUnknown":
			t := c.Sig.Results().At(0).Type()
			if len(x.x.unknown) == 0 {
				return absint.MkNil(t), true
			}
			return m.bytes(t, x.x.unknown), true
		}
		return stuck()
	case *pfield:
		switch name {
		case "Name":
			return absint.MkString(x.name), true
		case "JSONName", "TextName":
			return absint.MkString(x.name), true
		case "FullName":
			return absint.MkString(x.in.name + "." + x.name), true
		case "Number", "Index":
			n := x.num
			if name == "Index" {
				n--
			}
			return absint.MkInt(int64(n)), true
		case "Kind":
			if x.kind == "map" {
				return absint.MkInt(pkinds["message"]), true
			}
			return absint.MkInt(pkinds[x.elem]), true
		case "Cardinality":
			if x.kind == "list" || x.kind == "map" {
				return absint.MkInt(3), true
			}
			return absint.MkInt(1), true
		case "IsList":
			return absint.MkBool(x.kind == "list"), true
		case "IsMap":
			return absint.MkBool(x.kind == "map"), true
		case "HasPresence":
			return absint.MkBool(x.kind == "optional" || x.kind == "message"), true
		case "HasOptionalKeyword":
			return absint.MkBool(x.kind == "optional"), true
		case "MapValue":
			return m.handleOnce("fd:"+x.in.name+"."+x.name+".value", m.typ("FieldDescriptor"), &pfield{name: "value", kind: "scalar", elem: x.elem, msg: x.msg, in: x.in}), true
		case "MapKey":
			return m.handleOnce("fd:"+x.in.name+"."+x.name+".key", m.typ("FieldDescriptor"), &pfield{name: "key", kind: "scalar", elem: "string", in: x.in}), true
		case "Message":
			if x.kind == "map" {
				return m.md(&ptype{name: x.in.name + "." + x.name + "Entry", fields: []*pfield{{name: "key", kind: "scalar", elem: "string"}, {name: "value", kind: "scalar", elem: x.elem, msg: x.msg}}}), true
			}
			if x.msg == nil {
				return absint.MkNil(m.typ("MessageDescriptor")), true
			}
			return m.md(x.msg), true
		case "ContainingOneof":
			return absint.MkNil(m.typ("OneofDescriptor")), true
		case "ContainingMessage", "Parent":
			return m.md(x.in), true
		case "IsExtension", "IsWeak":
			return absint.MkBool(false), true
		}
		return stuck()
	case *ptype:
		switch name {
		case "Fields":
			return m.handle("fields", m.typ("FieldDescriptors"), &pfields{x}), true
		case "FullName":
			return absint.MkString(x.name), true
		case "Name":
			return absint.MkString(x.name[strings.LastIndex(x.name, ".")+1:]), true
		case "IsMapEntry":
			return absint.MkBool(strings.HasSuffix(x.name, "Entry")), true
		}
		return stuck()
	case *pmapkey:
		switch name {
		case "String", "Interface", "Value":
			return absint.MkString(x.k), true
		}
		return stuck()
	case *pfields:
		switch name {
		case "Len":
			return absint.MkInt(int64(len(x.t.fields))), true
		case "Get":
			if i, ok := absint.IntConst(p.Resolve(args[0])); ok && int(i) < len(x.t.fields) {
				return m.fd(x.t.fields[i]), true
			}
		case "ByName", "ByJSONName", "ByTextName":
			if n, ok := absint.StringConst(p.Resolve(args[0])); ok {
				if f := x.t.field(n); f != nil {
					return m.fd(f), true
				}
				return absint.MkNil(m.typ("FieldDescriptor")), true
			}
		}
		return stuck()
	case *pvalue:
		switch name {
		case "Message":
			if x.f.msg == nil || x.v.m == nil && (x.f.kind == "list" || x.f.kind == "map") {
				m.s.Stop("Message of a %s panics", x.f.kind)
			}
			if x.v.m == nil {
				e := m.newMsg(x.f.msg, "")
				e.readonly = true
				return m.reflect(e), true
			}
			return m.reflect(x.v.m), true
		case "List":
			if x.f.kind != "list" || x.elem {
				m.s.Stop("List of a %s panics", x.f.kind)
			}
			return m.handle("list", m.typ("List"), &pelems{x.f, x.v, x.x}), true
		case "Map":
			if x.f.kind != "map" {
				m.s.Stop("Map of a %s panics", x.f.kind)
			}
			return m.handle("map", m.typ("Map"), &pelems{x.f, x.v, x.x}), true
		case "IsValid":
			return absint.MkBool(true), true
		case "Bool", "Int", "Uint", "Float", "String", "Bytes", "Enum", "Interface":
			if (x.f.kind == "list" || x.f.kind == "map") && !x.elem || x.f.msg != nil || !kindOK(name, x.f.elem) {
				if name == "String" || name == "Interface" {
					return m.s.P.NewSym(m.s.P.Fresh(name), c.Sig.Results().At(0).Type()), true
				}
				m.s.Stop("%s of a %s of %s panics", name, x.f.kind, x.f.elem)
			}
			v := x.v.c
			if v == nil && !x.v.set {
				v = scalarZero(x.f.elem)
			}
			if v == nil {
				v = m.s.P.NewSym(x.v.term, scalarType(x.f.elem))
			}
			if b, ok := v.(pbytes); ok {
				return m.bytes(c.Sig.Results().At(0).Type(), []byte(b)), true
			}
			return v, true
		}
		return stuck()
	case *pelems:
		switch name {
		case "Len":
			return absint.MkInt(int64(len(x.v.list))), true
		case "IsValid":
			return absint.MkBool(x.v.set), true
		case "Get":
			if i, ok := absint.IntConst(p.Resolve(args[0])); ok && x.f.kind == "list" {
				if int(i) >= len(x.v.list) {
					m.s.Stop("Get(%d) of a list panics", i)
				}
				return m.value(&pvalue{f: x.f, v: x.v.list[i], elem: true}), true
			}
			if k, ok := m.object(args[0]).(*pmapkey); ok && x.f.kind == "map" {
				for _, e := range x.v.list {
					if e.key == k.k {
						return m.value(&pvalue{f: x.f, v: e, elem: true}), true
					}
				}
				return m.value(&pvalue{f: x.f, v: &pval{}, elem: true}), true
			}
		case "Has":
			if k, ok := m.object(args[0]).(*pmapkey); ok && x.f.kind == "map" {
				for _, e := range x.v.list {
					if e.key == k.k {
						return absint.MkBool(true), true
					}
				}
				return absint.MkBool(false), true
			}
		case "Range":
			es := append([]*pval{}, x.v.list...)
			if len(es) > 1 && p.ChooseBool("in:map entries from the end") {
				sort.SliceStable(es, func(i, j int) bool { return es[i].key > es[j].key })
			}
			for _, e := range es {
				k := m.handle("mapkey", m.typ("MapKey"), &pmapkey{e.key})
				if !p.Truth(p.CallValue(args[0], k, m.value(&pvalue{f: x.f, v: e, elem: true}))) {
					break
				}
			}
			return absint.TupleV{}, true
		case "Truncate":
			if i, ok := absint.IntConst(p.Resolve(args[0])); ok {
				m.mutable(x.x)
				x.v.list = x.v.list[:i]
				x.v.set = i > 0
				return absint.TupleV{}, true
			}
		case "Append":
			if v, ok := m.object(args[0]).(*pvalue); ok {
				m.mutable(x.x)
				x.v.list = append(x.v.list, v.v)
				x.v.set = true
				return absint.TupleV{}, true
			}
		}
		return stuck()
	}
	return nil, false
}

// fn handles functions of the protobuf packages.
func (m *pm) fn(c *absint.Call) (Val, bool) {
	p := m.s.P
	isNil := func(v Val) bool { return p.IsNil(v) }
	switch c.Name {
	case prPkg + ".ValueOfString":
		return m.value(&pvalue{f: &pfield{kind: "of", elem: "string"}, v: &pval{set: true, c: p.Resolve(c.Args[0])}}), true
	case protoNS + "Clone":
		if x := m.msg(c.Args[0]); x != nil {
			return m.val(m.clone(x)), true
		}
	case "bytes.Equal":
		a, ok1 := m.bytesOf(c.Args[0])
		b, ok2 := m.bytesOf(c.Args[1])
		if ok1 && ok2 {
			return absint.MkBool(string(a) == string(b)), true
		}
	case "google.golang.org/protobuf/encoding/protowire.ConsumeField":
		// fields are a number followed by one byte of content
		if b, ok := m.bytesOf(c.Args[0]); ok {
			rt := c.Sig.Results()
			if len(b) < 2 {
				return absint.TupleV{absint.MkInt(0), absint.MkInt(0), absint.MkInt(-1)}, true
			}
			return absint.TupleV{absint.Const{T: rt.At(0).Type(), V: constant.MakeInt64(int64(b[0]))}, absint.Const{T: rt.At(1).Type(), V: constant.MakeInt64(0)}, absint.MkInt(2)}, true
		}
	case "reflect.DeepEqual":
		a, ok1 := m.byteMap(c.Args[0])
		b, ok2 := m.byteMap(c.Args[1])
		if ok1 && ok2 {
			return absint.MkBool(a == b), true
		}
	case protoNS + "CloneOf":
		if x := m.msg(c.Args[0]); x != nil {
			return m.val(m.clone(x)), true
		}
	case protoNS + "Merge":
		d, s := m.msg(c.Args[0]), m.msg(c.Args[1])
		if d != nil && s != nil {
			m.merge(d, s)
			return absint.TupleV{}, true
		}
	case protoNS + "Reset":
		if x := m.msg(c.Args[0]); x != nil {
			m.reset(x)
			return absint.TupleV{}, true
		}
	case protoNS + "Equal":
		a, b := m.msg(c.Args[0]), m.msg(c.Args[1])
		if a != nil && b != nil {
			return absint.MkBool(m.equal(a, b)), true
		}
	case "(*" + fmNS + ".FieldMask).IsValid":
		if x := m.msg(c.Args[1]); x != nil {
			for _, path := range m.paths(c.Args[0]) {
				if !validPath(x.t, path) {
					return absint.MkBool(false), true
				}
			}
			return absint.MkBool(true), true
		}
	case "(*" + fmNS + ".FieldMask).Normalize":
		if isNil(c.Args[0]) {
			return absint.TupleV{}, true
		}
		m.s.SetField(c.Args[0], "Paths", m.pathSlice(normalizePaths(m.paths(c.Args[0]))))
		return absint.TupleV{}, true
	case fmNS + ".Intersect":
		var out []string
		sets := [][]string{m.paths(c.Args[0]), m.paths(c.Args[1])}
		if sl, ok := p.SliceOf(c.Args[2]); ok {
			for i := sl.Lo; i < sl.Hi; i++ {
				sets = append(sets, m.paths(sl.Arr.Cells[i].Load()))
			}
		}
		out = normalizePaths(sets[0])
		for _, s := range sets[1:] {
			out = intersectPaths(out, normalizePaths(s))
		}
		return m.mask(out...), true
	case fmNS + ".Union":
		var all []string
		for _, a := range c.Args {
			if sl, ok := p.Resolve(a).(absint.SliceV); ok {
				for i := sl.Lo; i < sl.Hi; i++ {
					all = append(all, m.paths(sl.Arr.Cells[i].Load())...)
				}
				continue
			}
			all = append(all, m.paths(a)...)
		}
		return m.mask(normalizePaths(all)...), true
	case fmNS + ".New":
		if x := m.msg(c.Args[0]); x != nil {
			var ps []string
			sl, _ := p.SliceOf(c.Args[1])
			for i := sl.Lo; i < sl.Hi; i++ {
				s, ok := absint.StringConst(p.Resolve(sl.Arr.Cells[i].Load()))
				if !ok {
					return nil, false
				}
				if !validPath(x.t, s) {
					return absint.TupleV{m.mask(ps...), p.MkErr(absint.MkInt(2), absint.MkString("invalid path"))}, true
				}
				ps = append(ps, s)
			}
			return absint.TupleV{m.mask(ps...), absint.MkNil(errType)}, true
		}
	}
	return nil, false
}

// equal is proto.Equal.
func (m *pm) equal(a, b *pmsg) bool {
	if m.render(a) == m.render(b) {
		return true
	}
	for _, f := range a.t.fields {
		x, y := m.field(a, f), m.field(b, f)
		if m.renderVal(x, f) == m.renderVal(y, f) {
			continue
		}
		if m.has(x, f) != m.has(y, f) {
			return false
		}
		if !x.set {
			continue
		}
		switch {
		case f.kind == "message":
			if !m.equal(x.m, y.m) {
				return false
			}
		case m.renderVal(x, f) != m.renderVal(y, f):
			if f.kind != "list" && f.kind != "map" {
				k, l := x.term, y.term
				if k > l {
					k, l = l, k
				}
				if m.s.Bool("same(" + k + "," + l + ")") {
					continue
				}
			}
			return false
		}
	}
	return true
}

// mask creates a field mask.
func (m *pm) mask(paths ...string) Val {
	pv := m.s.P.Alloc(m.s.C.ExtType(fmNS, "FieldMask"), "mask")
	m.s.SetField(pv, "Paths", m.pathSlice(paths))
	return pv
}

func (m *pm) pathSlice(paths []string) Val {
	var vs []Val
	for _, p := range paths {
		vs = append(vs, absint.MkString(p))
	}
	return m.s.P.MkSlice(types.NewSlice(types.Typ[types.String]), "paths", vs...)
}

func (m *pm) nilMask() Val {
	return absint.MkNil(types.NewPointer(m.s.C.ExtType(fmNS, "FieldMask")))
}

// paths lists the paths of a field mask.
func (m *pm) paths(v Val) []string {
	p := m.s.P
	if p.IsNil(v) {
		return nil
	}
	sl, ok := p.SliceOf(m.s.Field(v, "Paths"))
	if !ok {
		p.Stuck("paths of %s", absint.Key(v))
	}
	var r []string
	for i := sl.Lo; i < sl.Hi; i++ {
		s, ok := absint.StringConst(p.Resolve(sl.Arr.Cells[i].Load()))
		if !ok {
			p.Stuck("unknown path in a mask")
		}
		r = append(r, s)
	}
	return r
}

// validPath is what fieldmaskpb accepts.
func validPath(t *ptype, path string) bool {
	parts := strings.Split(path, ".")
	for _, n := range parts {
		if t == nil {
			return false
		}
		f := t.field(n)
		if f == nil {
			return false
		}
		t = f.msg
		if f.kind == "list" || f.kind == "map" {
			t = nil
		}
	}
	return true
}

// within returns whether path is selected by mask.
func within(path string, mask []string) bool {
	for _, p := range mask {
		if p == path || strings.HasPrefix(path, p+".") {
			return true
		}
	}
	return false
}

func normalizePaths(in []string) []string {
	ps := append([]string{}, in...)
	sort.Strings(ps)
	var r []string
	for _, p := range ps {
		if !within(p, r) {
			r = append(r, p)
		}
	}
	return r
}

func intersectPaths(a, b []string) []string {
	var r []string
	for _, p := range a {
		if within(p, b) {
			r = append(r, p)
		}
	}
	for _, p := range b {
		if within(p, a) {
			r = append(r, p)
		}
	}
	return normalizePaths(r)
}

// byteMap describes a map of known bytes.
func (m *pm) byteMap(v Val) (string, bool) {
	mv, ok := absint.Unwrap(m.s.P.Resolve(v)).(absint.MapV)
	if !ok || mv.M.Base != "" {
		return "", false
	}
	var es []string
	for _, e := range mv.M.Entries {
		if !e.Present {
			continue
		}
		b, ok := m.bytesOf(e.Cell.Load())
		if !ok {
			return "", false
		}
		es = append(es, absint.Key(e.Key)+"="+string(b))
	}
	sort.Strings(es)
	return strings.Join(es, ";"), true
}
