package rules

import (
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"scverify/internal/absint"
)

// C15: paged lists. Each paged method of a model server runs on models of known items: every chain of pages, from every
// combination of page sizes, has to visit the items once, in order. Tokens are known strings, made and read by the code
// itself, base64 and the wire format are computed here from what the code passes to them.

func init() {
	register("C15", "paged-list", "Following page tokens visits every item exactly once, in order", c15Pages)
	register("C15", "page-limits", "Pages respect the default and maximum size", c15Limits)
	register("C15", "page-hostile", "Malformed tokens and negative page sizes are errors, no token leads to endless pages", c15Hostile)
}

const (
	wastePkg = "pkg/trait/wastepb"
	hailPkg  = "pkg/trait/hailpb"
)

type pagedList struct {
	pkg, method string
	msg         string // the listed message
	key, field  string // the field that has the key, another string field
	items       string // the field of the response
	add         string // method of the model, empty to pass initial records
	raw         bool   // tokens aren't base64
}

func (l pagedList) String() string { return strings.TrimPrefix(l.pkg, "pkg/trait/") + "." + l.method }

var pagedLists = []pagedList{
	{pkg: electricPkg, method: "ListModes", msg: "ElectricMode", key: "id", field: "title", items: "modes", add: "AddMode"},
	{pkg: hailPkg, method: "ListHails", msg: "Hail", key: "id", field: "", items: "hails"},
	{pkg: parentPkg, method: "ListChildren", msg: "Child", key: "name", field: "", items: "children", add: "AddChild"},
	{pkg: pubPkg, method: "ListPublications", msg: "Publication", key: "id", field: "media_type", items: "publications", add: "CreatePublication"},
	{pkg: vendingPkg, method: "ListConsumables", msg: "Consumable", key: "name", field: "title", items: "consumables", add: "CreateConsumable"},
	{pkg: vendingPkg, method: "ListInventory", msg: "Consumable_Stock", key: "consumable", field: "", items: "inventory", add: "CreateStock"},
	{pkg: wastePkg, method: "ListWasteRecords", msg: "WasteRecord", key: "id", field: "system", items: "wasteRecords", add: "AddWasteRecord", raw: true},
}

// paged are the paged lists, checked to be all there are.
func (c *Ctx) paged(rule string) []pagedList {
	known := map[string]bool{}
	for _, l := range pagedLists {
		known[l.String()] = true
	}
	n := 0
	for _, pkg := range c.P.SSA {
		path := pkg.Pkg.Path()
		if !strings.HasPrefix(path, modPath+"/pkg/trait/") {
			continue
		}
		short := strings.TrimPrefix(path, modPath+"/pkg/trait/")
		for _, m := range pkg.Members {
			tn, ok := m.Object().(*types.TypeName)
			if !ok || tn.Name() != "ModelServer" {
				continue
			}
			ms := types.NewMethodSet(types.NewPointer(tn.Type()))
			for i := 0; i < ms.Len(); i++ {
				f := ms.At(i).Obj().(*types.Func)
				sig := f.Type().(*types.Signature)
				if sig.Params().Len() != 2 || f.Pkg().Path() != path {
					continue
				}
				rt, ok := sig.Params().At(1).Type().(*types.Pointer)
				if !ok {
					continue
				}
				has := map[string]bool{}
				for _, tf := range tmFields(rt.Elem()) {
					has[tf.name] = true
				}
				if !has["page_size"] || !has["page_token"] {
					continue
				}
				n++
				if !known[short+"."+f.Name()] {
					c.Undecided(rule, short+"."+f.Name(), f.Pos(), "a paged list that isn't known")
				}
			}
		}
	}
	c.Count("paged list methods", n)
	if n < len(pagedLists) {
		c.Undecided(rule, "enumeration", 0, "%d paged lists found instead of %d", n, len(pagedLists))
	}
	return pagedLists
}

type pagedWorld struct {
	*Scn
	l    pagedList
	srv  Val
	keys []string // in the order they're expected
}

// pagedWorld makes a server with items.
func (s *Scn) pagedWorld(l pagedList, keys []string) *pagedWorld {
	w := &pagedWorld{Scn: s, l: l}
	t := s.C.ExtType(traitsPkg, l.msg)
	item := func(k string) Val {
		f := map[string]any{}
		f[l.key] = k
		if l.field != "" {
			f[l.field] = "F" + k
		}
		return s.build(t, f)
	}
	var mv Val
	if l.add == "" {
		var opts []Val
		for _, k := range keys {
			opts = append(opts, s.F(resPkg, "WithInitialRecord", strID(k), Iface(item(k))))
		}
		mv = s.F(l.pkg, "NewModel", opts...)
	} else {
		mv = s.F(l.pkg, "NewModel")
		s.forget(mv, t)
		for _, k := range keys {
			r := s.M(mv, l.pkg, "Model", l.add, item(k))
			if len(r) > 0 {
				if code := s.Code(r[len(r)-1]); code != "OK" {
					s.P.Stuck("adding an item fails: %s", code)
				}
			}
		}
	}
	s.P.Settle()
	w.srv = s.F(l.pkg, "NewModelServer", mv)
	have := w.page(1000, "", nil).items
	if n := len(have) - len(keys); n > 0 && l.raw {
		// those the model started with, oldest last
		for i := len(have) - 1; i >= len(keys); i-- {
			w.keys = append(w.keys, strings.Split(have[i], "/")[0])
		}
	}
	w.keys = append(w.keys, keys...)
	if l.raw {
		// newest first
		for i, j := 0, len(w.keys)-1; i < j; i, j = i+1, j-1 {
			w.keys[i], w.keys[j] = w.keys[j], w.keys[i]
		}
	} else {
		sort.Strings(w.keys)
	}
	return w
}

// forget drops what a new model has in plain slices of t.
func (s *Scn) forget(mv Val, t types.Type) {
	sv, ok := s.P.Deref(mv).Load0().(*absint.StructV)
	if !ok {
		return
	}
	st := sv.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.NewPointer(t)) {
			sv.Field(i).Set(s.P, s.P.Zero(st.Field(i).Type()))
		}
	}
}

type page struct {
	items []string // keys, the other field when the mask drops the key
	next  string
	total int64
	code  string
}

func (w *pagedWorld) page(size int64, token string, mask []string) page {
	req := map[string]any{"page_size": absint.Const{T: types.Typ[types.Int32], V: absint.MkInt(size).V}, "page_token": token}
	if mask != nil {
		req["read_mask"] = w.pm().mask(mask...)
	}
	msg, err := w.rpcOn(w.srv, w.l.pkg, "ModelServer", w.l.method, req)
	p := page{code: w.Code(err)}
	if p.code != "OK" {
		return p
	}
	sv := tmStruct(w.P, msg)
	if sv == nil {
		w.P.Stuck("the response isn't known")
	}
	for _, f := range tmFields(sv.T) {
		v, has := tmGet(w.P, sv, f)
		if !has {
			continue
		}
		switch f.name {
		case "next_page_token":
			p.next = w.str(v)
		case "total_size":
			p.total = w.int(v)
		case w.l.items:
			for _, it := range w.list(v) {
				iv := tmStruct(w.P, it)
				desc := ""
				for _, g := range tmFields(iv.T) {
					x, has := tmGet(w.P, iv, g)
					if !has {
						continue
					}
					switch g.name {
					case w.l.key:
						desc += w.str(x)
					case w.l.field:
						desc += "/" + strings.TrimPrefix(w.str(x), "F")
					}
				}
				p.items = append(p.items, desc)
			}
		}
	}
	return p
}

// want is what the item with a key reads as through a mask.
func (w *pagedWorld) want(k string, mask []string) string {
	r := ""
	in := func(f string) bool {
		if mask == nil {
			return true
		}
		for _, m := range mask {
			if m == f {
				return true
			}
		}
		return false
	}
	if in(w.l.key) {
		r += k
	}
	if w.l.field != "" && in(w.l.field) {
		r += "/" + k
	}
	return r
}

// without is a field that's neither the key nor set.
func (w *pagedWorld) without() string {
	for _, f := range tmFields(w.C.ExtType(traitsPkg, w.l.msg)) {
		if f.name != w.l.key && f.wrapper == nil {
			return f.name
		}
	}
	w.P.Stuck("%s has only a key", w.l.msg)
	return ""
}

func effectiveSize(n int64) int {
	switch {
	case n == 0:
		return 50
	case n > 1000:
		return 1000
	}
	return int(n)
}

// chain follows the tokens using page sizes in turn, the last one is repeated. It reports what's wrong.
func (w *pagedWorld) chain(sizes []int64, mask []string) {
	n := len(w.keys)
	what := fmt.Sprintf("%d items, pages of %v", n, sizes)
	if mask != nil {
		what += ", read mask " + strings.Join(mask, ",")
	}
	var got []string
	token := ""
	least := effectiveSize(sizes[len(sizes)-1])
	for i := 0; ; i++ {
		size := sizes[len(sizes)-1]
		if i < len(sizes) {
			size = sizes[i]
		}
		p := w.page(size, token, mask)
		if p.code != "OK" {
			w.Fail("%s: page %d is answered with %s", what, i, p.code)
			return
		}
		if len(p.items) > effectiveSize(size) {
			w.Fail("%s: page %d has %d items, asked for %d", what, i, len(p.items), size)
		}
		if p.total != int64(n) {
			w.Fail("%s: page %d has a total size of %d", what, i, p.total)
		}
		got = append(got, p.items...)
		token = p.next
		if token == "" {
			break
		}
		if i > n/least+len(sizes)+2 {
			w.Fail("%s: the pages don't end", what)
			return
		}
	}
	var want []string
	for _, k := range w.keys {
		want = append(want, w.want(k, mask))
	}
	if len(got) != len(want) || strings.Join(got, " ") != strings.Join(want, " ") {
		if n > 10 {
			w.Fail("%s: following the pages returns %d items that aren't the %d listed, in order", what, len(got), n)
			return
		}
		w.Fail("%s: following the pages returns %v instead of %v", what, got, want)
	}
}

func c15Cfg() *absint.Config {
	cfg := worldCfg(&absint.Config{Threads: true, MaxSteps: 60000000, MaxLoop: 5000, MaxVisits: 100000})
	wireCfg(cfg)
	for _, pkg := range []string{"math/rand.", "math/rand/v2."} {
		for _, f := range []string{"Float32", "Float64"} {
			cfg.Hooks[pkg+f] = func(c *absint.Call) (Val, bool) { return absint.MkFloat(resType(c), 0.5), true }
		}
	}
	return cfg
}

// the keys of items in the order they're added, some are prefixes of others
var pageKeys = [][]string{
	{"b", "a", "ab", "aa", "c", "B", "a/b", "z"},
	{"2", "10", "1", "20", "é", "/", "1 ", "0"},
}

func c15Pages(c *Ctx) {
	max := 5
	if c.Tier == "thorough" {
		max = 8
	}
	for _, l := range c.paged("paged-list") {
		fn := c.Method(l.pkg, "ModelServer", l.method)
		for n := 0; n <= max; n++ {
			c.Explore("paged-list", fmt.Sprintf("%s of %d items", l, n), fn.Pos(), c15Cfg(), func(s *Scn) {
				keys := pageKeys[s.Pick("keys", len(pageKeys))][:n]
				w := s.pagedWorld(l, keys)
				masks := [][]string{nil, {l.key}}
				if l.field != "" {
					masks = append(masks, []string{l.field})
				} else {
					masks = append(masks, []string{w.without()})
				}
				mask := masks[s.Pick("mask", len(masks))]
				first := int64(s.Pick("first page size", n+3))
				for then := int64(0); then <= int64(n)+2; then++ {
					w.chain([]int64{first, then}, mask)
					if mask == nil && first != 0 && then != 0 {
						for last := int64(1); last <= 3; last++ {
							w.chain([]int64{first, then, last}, mask)
						}
					}
				}
			})
		}
	}
}

func c15Limits(c *Ctx) {
	ns := []int{49, 50, 51, 101, 1001}
	if c.Tier == "thorough" {
		ns = append(ns, 999, 1000, 2001)
	}
	for _, l := range c.paged("page-limits") {
		fn := c.Method(l.pkg, "ModelServer", l.method)
		c.Explore("page-limits", fmt.Sprintf("%s of %v items", l, ns), fn.Pos(), c15Cfg(), func(s *Scn) {
			n := ns[s.Pick("items", len(ns))]
			sizes := [][]int64{{0}, {50}, {49}, {51}, {0, 1000}, {7, 0}}
			if n > 900 {
				sizes = [][]int64{{5000}, {math.MaxInt32}}
				if c.Tier == "thorough" {
					sizes = [][]int64{{1000}, {5000}, {math.MaxInt32}, {999}, {500}, {1001}, {0}}
				}
			}
			var keys []string
			for i := 0; i < n; i++ {
				keys = append(keys, strconv.Itoa((i*7919)%n))
			}
			w := s.pagedWorld(l, keys)
			for _, sz := range sizes {
				w.chain(sz, nil)
				// what the defaults are
				first := w.page(sz[0], "", nil)
				if e := min(effectiveSize(sz[0]), n); (sz[0] == 0 || sz[0] > 1000) && len(first.items) != e {
					s.Fail("%d items, a page of %d has %d items instead of %d", n, sz[0], len(first.items), e)
				}
			}
		})
		// without that many items: more than 1000 are never returned
		c.Explore("page-limits", fmt.Sprintf("%s of 3 items, large pages", l), fn.Pos(), c15Cfg(), func(s *Scn) {
			w := s.pagedWorld(l, []string{"b", "c", "a"})
			for _, sz := range [][]int64{{1000}, {1001}, {5000}, {math.MaxInt32}} {
				w.chain(sz, nil)
			}
		})
	}
}

func c15Hostile(c *Ctx) {
	num, ok := wireNumber(c.ExtType("github.com/smart-core-os/sc-api/go/types", "PageToken"), "last_resource_name")
	if !ok || num > 15 {
		c.Undecided("page-hostile", "PageToken", 0, "types.PageToken has no last_resource_name")
		return
	}
	tag := byte(num<<3 | 2)
	enc := func(b ...byte) string { return base64.StdEncoding.EncodeToString(b) }
	nameOf := func(x string) string { return enc(append([]byte{tag, byte(len(x))}, x...)...) }
	for _, l := range c.paged("page-hostile") {
		fn := c.Method(l.pkg, "ModelServer", l.method)
		bad := []string{"%%%", "a", "AAA", "=", "not a token", enc(tag, 5, 'x'), enc(tag), enc(0xff), enc(tag, 1, 0xff), enc(0x0b), enc(7)}
		odd := []string{enc(), nameOf(""), nameOf("a"), nameOf("aaaa"), nameOf("zzz"), nameOf("b"), enc(0x50, 1), enc(tag, 1, 'a', tag, 1, 'b')}
		if l.raw {
			bad = []string{"x", "-1", "1.5", "99999999999999999999999", " 1", "1 ", "0x1", enc(tag, 1, 'a'), "-9223372036854775808", "1e1"}
			odd = []string{"0", "1", "2", "3", "4", "1000000", "9223372036854775807", "+1", "01"}
		}
		for n := 0; n <= 3; n++ {
			c.Explore("page-hostile", fmt.Sprintf("%s of %d items", l, n), fn.Pos(), c15Cfg(), func(s *Scn) {
				w := s.pagedWorld(l, []string{"b", "c", "a"}[:n])
				size := int64([]int{1, 2, 0}[s.Pick("page size", 3)])
				for _, t := range bad {
					if p := w.page(size, t, nil); p.code == "OK" {
						s.Fail("%d items, page size %d: the malformed token %q is accepted", n, size, t)
					}
				}
				at := map[string]int{}
				for i, k := range w.keys {
					at[w.want(k, nil)] = i
				}
				for _, t := range odd {
					token, last := t, -1
					for i := 0; ; i++ {
						p := w.page(size, token, nil)
						if p.code != "OK" {
							if i > 0 {
								s.Fail("%d items, page size %d: the token that follows %q is refused with %s", n, size, t, p.code)
							}
							break
						}
						if len(p.items) > effectiveSize(size) {
							s.Fail("%d items, page size %d: %d items follow %q", n, size, len(p.items), t)
						}
						for _, it := range p.items {
							pos, ok := at[it]
							if !ok || pos <= last {
								s.Fail("%d items, page size %d: %s is returned out of order after %q", n, size, it, t)
							}
							last = pos
						}
						if token = p.next; token == "" {
							break
						}
						if i > n+3 {
							s.Fail("%d items, page size %d: the pages after %q don't end", n, size, t)
							break
						}
					}
				}
				valid := w.page(1, "", nil).next
				for _, bad := range []int64{-1, -2, -5, -50, math.MinInt32} {
					for _, t := range []string{"", valid, odd[1]} {
						if p := w.page(bad, t, nil); p.code == "OK" {
							s.Fail("%d items: a page size of %d is accepted", n, bad)
						}
					}
				}
			})
		}
	}
}

// ---- the wire format of known messages

func wireTag(t types.Type, name string) (typ string, num int, ok bool) {
	st, isStruct := t.Underlying().(*types.Struct)
	if !isStruct {
		return "", 0, false
	}
	parse := func(tag string) bool {
		ps := strings.Split(reflect.StructTag(tag).Get("protobuf"), ",")
		if len(ps) < 2 || protoTagName(tag) != name {
			return false
		}
		typ = ps[0]
		num, _ = strconv.Atoi(ps[1])
		return num > 0
	}
	for i := 0; i < st.NumFields(); i++ {
		if parse(st.Tag(i)) {
			return typ, num, true
		}
	}
	for _, f := range tmFields(t) {
		if f.wrapper != nil && f.name == name {
			if parse(f.wrapper.Underlying().(*types.Struct).Tag(0)) {
				return typ, num, true
			}
		}
	}
	return "", 0, false
}

func wireNumber(t types.Type, name string) (int, bool) {
	_, n, ok := wireTag(t, name)
	return n, ok
}

// wireMarshal encodes a known message of strings, bytes, varints and messages.
func wireMarshal(p *absint.Path, sv *absint.StructV) ([]byte, bool) {
	var out []byte
	type enc struct {
		num int
		b   []byte
	}
	var fields []enc
	for _, f := range tmFields(sv.T) {
		v, has := tmGet(p, sv, f)
		if !has {
			continue
		}
		typ, num, ok := wireTag(sv.T, f.name)
		if !ok || f.kind == "list" || f.kind == "map" {
			return nil, false
		}
		if f.wrapper == nil && f.kind == "optional" {
			v = p.Resolve(p.Deref(v).Load())
		}
		var b []byte
		switch {
		case f.kind == "message":
			sub := tmStruct(p, v)
			if sub == nil {
				return nil, false
			}
			x, ok := wireMarshal(p, sub)
			if !ok {
				return nil, false
			}
			b = binary.AppendUvarint(b, uint64(num)<<3|2)
			b = binary.AppendUvarint(b, uint64(len(x)))
			b = append(b, x...)
		case typ == "bytes":
			x, ok := knownBytes(p, v)
			if !ok {
				var str string
				if str, ok = absint.StringConst(v); !ok {
					return nil, false
				}
				if !utf8.ValidString(str) {
					return nil, false
				}
				x = []byte(str)
			}
			b = binary.AppendUvarint(b, uint64(num)<<3|2)
			b = binary.AppendUvarint(b, uint64(len(x)))
			b = append(b, x...)
		case typ == "varint":
			n, ok := absint.IntConst(v)
			if !ok {
				return nil, false
			}
			b = binary.AppendUvarint(b, uint64(num)<<3)
			b = binary.AppendUvarint(b, uint64(n))
		default:
			return nil, false
		}
		fields = append(fields, enc{num, b})
	}
	sort.SliceStable(fields, func(i, j int) bool { return fields[i].num < fields[j].num })
	for _, f := range fields {
		out = append(out, f.b...)
	}
	return out, true
}

// wireUnmarshal decodes b, known is false for messages with fields it doesn't handle, err for malformed input.
func wireUnmarshal(p *absint.Path, sv *absint.StructV, b []byte) (err string, known bool) {
	tmReset(p, sv)
	for len(b) > 0 {
		tag, n := binary.Uvarint(b)
		if n <= 0 || tag>>3 == 0 || tag>>3 > 1<<29-1 {
			return "invalid field number", true
		}
		b = b[n:]
		num, wire := int(tag>>3), int(tag&7)
		var data []byte
		var x uint64
		switch wire {
		case 0:
			if x, n = binary.Uvarint(b); n <= 0 {
				return "unexpected EOF", true
			}
			b = b[n:]
		case 1, 5:
			k := 8
			if wire == 5 {
				k = 4
			}
			if len(b) < k {
				return "unexpected EOF", true
			}
			b = b[k:]
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || l > uint64(len(b)-n) {
				return "unexpected EOF", true
			}
			data, b = b[n:n+int(l)], b[n+int(l):]
		case 3:
			if len(b) == 0 {
				return "unexpected EOF", true
			}
			return "", false
		default:
			return "invalid wire type", true
		}
		for _, f := range tmFields(sv.T) {
			typ, fnum, ok := wireTag(sv.T, f.name)
			if !ok || fnum != num {
				continue
			}
			basic, isBasic := f.t.Underlying().(*types.Basic)
			var v Val
			switch {
			case f.kind == "list" || f.kind == "map" || f.kind == "message" || !isBasic:
				return "", false
			case typ == "bytes" && wire == 2 && basic.Info()&types.IsString != 0:
				if !utf8.Valid(data) {
					return "invalid UTF-8", true
				}
				v = absint.MkString(string(data))
			case typ == "varint" && wire == 0 && basic.Info()&types.IsInteger != 0:
				v = absint.Const{T: f.t, V: absint.MkInt(int64(x)).V}
			default:
				if (typ == "bytes") != (wire == 2) {
					continue // kept as an unknown field
				}
				return "", false
			}
			if f.wrapper != nil {
				w := p.Alloc(f.wrapper, "oneof")
				p.Deref(w).Load0().(*absint.StructV).Field(0).Set(p, v)
				v = absint.IfaceV{T: types.NewPointer(f.wrapper), V: w}
			} else if f.kind == "optional" {
				return "", false
			}
			sv.Field(f.idx).Set(p, v)
		}
	}
	return "", true
}

// wireCfg models proto.Marshal and proto.Unmarshal of known messages.
func wireCfg(cfg *absint.Config) {
	old := cfg.Hook
	cfg.Hook = func(c *absint.Call) (Val, bool) {
		switch c.Name {
		case protoNS + "Marshal", "(" + protoNS + "MarshalOptions).Marshal":
			m := c.Args[len(c.Args)-1]
			if c.P.IsNil(c.P.Resolve(m)) {
				return absint.TupleV{mkBytes(c.P, nil), absint.MkNil(errType)}, true
			}
			if sv := tmStruct(c.P, m); sv != nil {
				c.P.AccessDeep(m, false)
				if b, ok := wireMarshal(c.P, sv); ok {
					return absint.TupleV{mkBytes(c.P, b), absint.MkNil(errType)}, true
				}
			}
		case protoNS + "Unmarshal", "(" + protoNS + "UnmarshalOptions).Unmarshal":
			m := c.Args[len(c.Args)-1]
			b, ok := knownBytes(c.P, c.Args[len(c.Args)-2])
			if sv := tmStruct(c.P, m); sv != nil && ok {
				c.P.AccessDeep(m, true)
				msg, known := wireUnmarshal(c.P, sv, b)
				if known && msg == "" {
					return absint.MkNil(errType), true
				}
				if known {
					return c.P.MkErr(absint.MkInt(2), absint.MkString("proto: "+msg)), true
				}
			}
		}
		if old != nil {
			return old(c)
		}
		return nil, false
	}
}
