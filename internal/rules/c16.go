package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"strings"
	"time"

	"scverify/internal/absint"
)

func init() {
	register("C16", "default-comparer", "The default comparer agrees with protobuf equality but for change_time", c16Default)
	register("C16", "tolerance", "Tolerance comparers accept exactly what's within the tolerance", c16Tolerance)
	register("C16", "combinators", "And and Or combine comparers", c16Logic)
	register("C16", "equivalent-changes", "Subscribers get no change equivalent to what they have, and every other", c16Resources)
}

const cmpPkg = "pkg/cmp"

func cmpCfg() *absint.Config {
	cfg := timeCfg(pmCfg(&absint.Config{MaxLoop: 60}))
	return cfg
}

// scalarTable lists values of a kind, without the zero value.
func scalarTable(elem string) []Val {
	i := func(ns ...int64) []Val {
		var r []Val
		for _, n := range ns {
			r = append(r, absint.Const{T: scalarType(elem), V: constant.MakeInt64(n)})
		}
		return r
	}
	switch elem {
	case "bool":
		return []Val{absint.MkBool(true)}
	case "float", "double":
		var r []Val
		for _, f := range []float64{1, -1, math.NaN(), math.Inf(1), math.Copysign(0, -1)} {
			r = append(r, absint.MkFloat(types.Typ[types.Float64], f))
		}
		return r
	case "string":
		return []Val{absint.MkString("a"), absint.MkString("b")}
	case "bytes":
		return []Val{pbytes("a"), pbytes("ab")}
	case "uint32", "uint64", "fixed32", "fixed64":
		return i(1, 2)
	}
	return i(1, -1)
}

func setVal(c Val) *pval { return &pval{set: true, c: c, term: valKey(c)} }

func valKey(c Val) string {
	if b, ok := c.(pbytes); ok {
		return fmt.Sprintf("%q", string(b))
	}
	return absint.Key(c)
}

// pickField picks the content of a field.
func (m *pm) pickField(f *pfield, name string) *pval {
	s := m.s
	one := func(name string) *pval {
		tab := append(scalarTable(f.elem), scalarZero(f.elem))
		return setVal(tab[s.Pick(name, len(tab))])
	}
	switch f.kind {
	case "scalar":
		tab := scalarTable(f.elem)
		if i := s.Pick(name, len(tab)+1); i < len(tab) {
			return setVal(tab[i])
		}
		return &pval{}
	case "optional":
		if s.Bool(name + " is set") {
			return one(name)
		}
		return &pval{}
	case "list", "map":
		v := &pval{}
		n := s.Pick(name+" len", 3)
		if f.kind == "map" {
			n++ // which of two keys are there
		}
		for i := 0; i < 2; i++ {
			if f.kind == "list" && i >= n || f.kind == "map" && n>>i&1 == 0 {
				continue
			}
			var e *pval
			if f.msg != nil {
				e = &pval{set: true, m: m.pickMsg(f.msg, fmt.Sprint(name, i))}
			} else {
				e = one(fmt.Sprint(name, i))
			}
			e.key = fmt.Sprint("k", i)
			v.list = append(v.list, e)
		}
		v.set = len(v.list) > 0
		return v
	case "message":
		if s.Bool(name + " is set") {
			return &pval{set: true, m: m.pickMsg(f.msg, name)}
		}
		return &pval{}
	}
	return nil
}

func (m *pm) pickMsg(t *ptype, name string) *pmsg {
	x := m.newMsg(t, "")
	for _, f := range t.fields {
		x.f[f.name] = m.pickField(f, name+"."+f.name)
	}
	return x
}

type valEq func(f *pfield, a, b *pval) (equal, ok bool)

// wantEqual is protobuf equality, except for change_time of Change messages and what custom decides.
func (m *pm) wantEqual(a, b *pmsg, custom valEq) bool {
	if a.t != b.t || a.readonly != b.readonly {
		return false
	}
	for _, f := range a.t.fields {
		if f.name == "change_time" && a.t.name[strings.LastIndex(a.t.name, ".")+1:] == "Change" {
			continue
		}
		x, y := m.field(a, f), m.field(b, f)
		if x.set != y.set {
			return false
		}
		if !x.set {
			continue
		}
		switch f.kind {
		case "list":
			if len(x.list) != len(y.list) {
				return false
			}
			for i := range x.list {
				if !m.wantEqualVal(f, x.list[i], y.list[i], custom) {
					return false
				}
			}
		case "map":
			if len(x.list) != len(y.list) {
				return false
			}
			for _, e := range x.list {
				found := false
				for _, g := range y.list {
					if g.key == e.key {
						found = m.wantEqualVal(f, e, g, custom)
					}
				}
				if !found {
					return false
				}
			}
		default:
			if !m.wantEqualVal(f, x, y, custom) {
				return false
			}
		}
	}
	return unknownFields(a.unknown) == unknownFields(b.unknown)
}

// unknownFields describes unknown fields by number.
func unknownFields(b []byte) string {
	by := map[string]string{}
	for i := 0; i+1 < len(b); i += 2 {
		k := string(b[i : i+1])
		by[k] += string(b[i+1 : i+2])
	}
	r := ""
	for _, k := range sortedKeys(by) {
		r += k + "=" + by[k] + ";"
	}
	return r
}

func (m *pm) wantEqualVal(f *pfield, a, b *pval, custom valEq) bool {
	if custom != nil {
		if eq, ok := custom(f, a, b); ok {
			return eq
		}
	}
	if a.m != nil || b.m != nil {
		return a.m != nil && b.m != nil && m.wantEqual(a.m, b.m, custom)
	}
	x, ok1 := absint.FloatOf(a.c)
	y, ok2 := absint.FloatOf(b.c)
	if ok1 && ok2 && (f.elem == "float" || f.elem == "double") {
		return x == y || math.IsNaN(x) && math.IsNaN(y)
	}
	return valKey(a.c) == valKey(b.c)
}

var allKinds = []string{"bool", "enum", "int32", "sint32", "uint32", "int64", "sint64", "uint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double", "string", "bytes"}

func c16Default(c *Ctx) {
	fn := c.Fn(cmpPkg, "Equal")
	check := func(s *Scn, x, y Val, want bool, what string) {
		eq := s.F(cmpPkg, "Equal")
		if got := s.P.Truth(s.P.CallValue(eq, x, y)); got != want {
			s.Fail("%s compare as equal=%v", what, got)
		}
	}
	for _, kind := range []string{"scalar", "optional", "list", "map", "message"} {
		for _, elem := range allKinds {
			if kind == "list" || kind == "map" || kind == "message" {
				// the kind matters per value only
				if c.Tier != "thorough" && elem != "string" && elem != "double" && elem != "bytes" && elem != "bool" {
					continue
				}
			}
			f := &pfield{name: "f", kind: kind, elem: elem}
			if kind == "message" {
				f = pmessage("f", mkType("N", &pfield{name: "g", kind: "optional", elem: elem}))
			}
			t := mkType("T", f)
			c.Explore("default-comparer", kind+" of "+elem, fn.Pos(), cmpCfg(), func(s *Scn) {
				m := s.pm()
				x, y := m.pickMsg(t, "x"), m.pickMsg(t, "y")
				check(s, m.val(x), m.val(y), m.wantEqual(x, y, nil), m.render(x)+" and "+m.render(y))
			})
		}
	}
	el := mkType("E", &pfield{name: "g", kind: "scalar", elem: "bool"})
	shapes := map[string]*ptype{
		"several fields":   mkType("T", &pfield{name: "a", kind: "optional", elem: "bool"}, &pfield{name: "b", kind: "scalar", elem: "int32"}, pmessage("m", el)),
		"list of messages": mkType("T", plistOf("l", el)),
		"map of messages":  mkType("T", &pfield{name: "p", kind: "map", elem: "message", msg: el}),
	}
	for _, n := range sortedKeys(shapes) {
		t := shapes[n]
		c.Explore("default-comparer", n, fn.Pos(), cmpCfg(), func(s *Scn) {
			m := s.pm()
			x, y := m.pickMsg(t, "x"), m.pickMsg(t, "y")
			check(s, m.val(x), m.val(y), m.wantEqual(x, y, nil), m.render(x)+" and "+m.render(y))
		})
	}
	for _, n := range []string{"smartcore.PullResponse.Change", "Change", "smartcore.Changes", "smartcore.Change.Other"} {
		ts := mkType("google.protobuf.Timestamp", &pfield{name: "seconds", kind: "scalar", elem: "int64"})
		inner := mkType(n, pmessage("change_time", ts), &pfield{name: "value", kind: "scalar", elem: "bool"})
		outer := mkType("smartcore.PullResponse", plistOf("changes", inner), pmessage("change_time", ts))
		for _, nested := range []bool{false, true} {
			t, name := inner, n
			if nested {
				t, name = outer, "list of "+n
				t = mkType("smartcore.PullResponse", pmessage("one", inner), pmessage("change_time", ts))
			}
			c.Explore("default-comparer", "change_time of "+name, fn.Pos(), cmpCfg(), func(s *Scn) {
				m := s.pm()
				x, y := m.pickMsg(t, "x"), m.pickMsg(t, "y")
				check(s, m.val(x), m.val(y), m.wantEqual(x, y, nil), m.render(x)+" and "+m.render(y))
			})
		}
	}
	c.Explore("default-comparer", "nil and messages of other types", fn.Pos(), cmpCfg(), func(s *Scn) {
		m := s.pm()
		t, u := mkType("p.T", pscalar("a")), mkType("q.T", pscalar("a"))
		pick := func(name string) (Val, *pmsg) {
			switch s.Pick(name, 5) {
			case 0:
				return absint.MkNil(c.protoMessage()), nil
			case 1:
				x := m.newMsg(t, "")
				x.readonly = true
				return m.val(x), x
			case 2:
				x := m.newMsg(t, "")
				return m.val(x), x
			case 3:
				x := m.newMsg(u, "")
				return m.val(x), x
			}
			x := m.newMsg(u, "")
			x.readonly = true
			return m.val(x), x
		}
		xv, x := pick("x")
		yv, y := pick("y")
		want := x == nil && y == nil
		if x != nil && y != nil {
			want = m.wantEqual(x, y, nil)
		}
		desc := func(x *pmsg) string {
			switch {
			case x == nil:
				return "nil"
			case x.readonly:
				return "nil *" + x.t.name
			}
			return "empty " + x.t.name
		}
		check(s, xv, yv, want, desc(x)+" and "+desc(y))
	})
	c.Explore("default-comparer", "unknown fields", fn.Pos(), cmpCfg(), func(s *Scn) {
		m := s.pm()
		t := mkType("T", pscalar("a"))
		tab := []string{"", "\x01a", "\x01b", "\x02a", "\x01a\x02b", "\x02b\x01a", "\x01a\x01b", "\x01b\x01a", "\x01a\x02b\x01c", "\x01a\x01c\x02b"}
		x, y := m.newMsg(t, ""), m.newMsg(t, "")
		x.unknown = []byte(tab[s.Pick("x", len(tab))])
		y.unknown = []byte(tab[s.Pick("y", len(tab))])
		check(s, m.val(x), m.val(y), m.wantEqual(x, y, nil), fmt.Sprintf("messages with unknown fields %q and %q", x.unknown, y.unknown))
	})
}

// nativeMsg is a message of a well known type.
func (m *pm) nativeMsg(t *ptype, v Val) *pmsg {
	x := m.newMsg(t, "")
	x.native = Iface(v)
	return x
}

func c16Tolerance(c *Ctx) {
	tsType := mkType("google.protobuf.Timestamp", &pfield{name: "seconds", kind: "scalar", elem: "int64"}, &pfield{name: "nanos", kind: "scalar", elem: "int32"})
	durType := mkType("google.protobuf.Duration", &pfield{name: "seconds", kind: "scalar", elem: "int64"}, &pfield{name: "nanos", kind: "scalar", elem: "int32"})
	other := mkType("Other", pscalar("a"))
	// what other kinds of fields are answered with
	otherKinds := func(rule, name string, own func(f *pfield) bool, mk func(s *Scn) Val) {
		var fs []*pfield
		for _, k := range allKinds {
			fs = append(fs, &pfield{name: k, kind: "scalar", elem: k})
		}
		fs = append(fs, pmessage("message", other), pmessage("ts", tsType), pmessage("dur", durType))
		t := mkType("T", fs...)
		c.Explore(rule, name+" of other kinds", c.Fn(cmpPkg, "Equal").Pos(), cmpCfg(), func(s *Scn) {
			m := s.pm()
			var rest []*pfield
			for _, f := range t.fields {
				if !own(f) {
					rest = append(rest, f)
				}
			}
			f := rest[s.Pick("field", len(rest))]
			mk2 := func() Val {
				v := setVal(nil)
				if f.msg != nil {
					v = &pval{set: true, m: m.newMsg(f.msg, "")}
				} else {
					v = setVal(scalarTable(f.elem)[0])
				}
				return m.value(&pvalue{f: f, v: v})
			}
			r, ok := s.P.CallValue(mk(s), m.fd(f), mk2(), mk2()).(absint.TupleV)
			if !ok || s.P.Truth(r[1]) {
				s.Fail("%s decides about a field of type %s", name, f.elem)
			}
		})
	}

	fl := []float64{0, 1, -1, 1.5, 2, 2.5, 3, 100, 101, 110, 110.5, -100, -110, 8, 12, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 0.5, 0.25}
	for _, par := range [][2]float64{{0, 0}, {0, 0.5}, {0, 1}, {0.5, 0}, {0.5, 1}, {0.125, 1}, {0, 10}, {1, 0}} {
		name := fmt.Sprintf("FloatValueApprox(%v,%v)", par[0], par[1])
		mk := func(s *Scn) Val {
			f64 := types.Typ[types.Float64]
			return s.F(cmpPkg, "FloatValueApprox", absint.MkFloat(f64, par[0]), absint.MkFloat(f64, par[1]))
		}
		within := func(x, y float64) (is, decided bool) {
			if math.IsNaN(x) || math.IsNaN(y) {
				return math.IsNaN(x) && math.IsNaN(y), true
			}
			if math.IsInf(x, 0) || math.IsInf(y, 0) {
				return x == y, true
			}
			r := func(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }
			abs := func(r *big.Rat) *big.Rat { return new(big.Rat).Abs(r) }
			d := abs(new(big.Rat).Sub(r(x), r(y)))
			small := abs(r(x))
			if a := abs(r(y)); a.Cmp(small) < 0 {
				small = a
			}
			rel := new(big.Rat).Mul(r(par[0]), small)
			if m := r(par[1]); m.Cmp(rel) > 0 {
				rel = m
			}
			big := abs(r(x))
			if a := abs(r(y)); a.Cmp(big) > 0 {
				big = a
			}
			return d.Cmp(rel) <= 0, beyondRounding(d, rel, big)
		}
		c.Explore("tolerance", name, c.Fn(cmpPkg, "FloatValueApprox").Pos(), cmpCfg(), func(s *Scn) {
			m := s.pm()
			f := &pfield{name: "f", kind: "scalar", elem: []string{"float", "double"}[s.Pick("kind", 2)]}
			mkType("T", f)
			f = mkType("T", f).fields[0]
			x, y := fl[s.Pick("x", len(fl))], fl[s.Pick("y", len(fl))]
			want, decided := within(x, y)
			v := func(x float64) Val {
				return m.value(&pvalue{f: f, v: setVal(absint.MkFloat(types.Typ[types.Float64], x))})
			}
			r := s.P.CallValue(mk(s), m.fd(f), v(x), v(y)).(absint.TupleV)
			if !s.P.Truth(r[1]) {
				s.Fail("%s doesn't decide about a %s", name, f.elem)
			} else if got := s.P.Truth(r[0]); got != want && decided {
				s.Fail("%s considers %v and %v equal=%v", name, x, y, got)
			}
		})
		if par[0] != 0.5 || par[1] != 1 {
			continue
		}
		otherKinds("tolerance", name, func(f *pfield) bool { return f.elem == "float" || f.elem == "double" }, mk)
		// as part of a comparer of messages
		for _, kind := range []string{"scalar", "optional", "list", "map"} {
			t := mkType("T", &pfield{name: "f", kind: kind, elem: "double"}, &pfield{name: "g", kind: "scalar", elem: "int32"})
			c.Explore("tolerance", "messages with a "+kind+" compared with "+name, c.Fn(cmpPkg, "Equal").Pos(), cmpCfg(), func(s *Scn) {
				m := s.pm()
				x, y := m.pickMsg(t, "x"), m.pickMsg(t, "y")
				want := m.wantEqual(x, y, func(f *pfield, a, b *pval) (bool, bool) {
					if f.elem != "double" {
						return false, false
					}
					p, _ := absint.FloatOf(a.c)
					q, _ := absint.FloatOf(b.c)
					is, _ := within(p, q)
					return is, true
				})
				eq := s.F(cmpPkg, "Equal", mk(s))
				if got := s.P.Truth(s.P.CallValue(eq, m.val(x), m.val(y))); got != want {
					s.Fail("%s and %s compare as equal=%v", m.render(x), m.render(y), got)
				}
			})
		}
	}

	base := time.Unix(1000, 0)
	times := []time.Time{base, base.Add(1), base.Add(-1), base.Add(time.Second), base.Add(time.Second + 1), base.Add(-time.Second), base.Add(time.Hour), time.Unix(0, 0), time.Unix(-62135596800, 0), time.Unix(253402300799, 999999999), time.Unix(-5, 5e8), {}}
	for _, d := range []time.Duration{0, 1, time.Second, time.Hour} {
		name := fmt.Sprintf("TimeValueWithin(%v)", d)
		mk := func(s *Scn) Val {
			return s.F(cmpPkg, "TimeValueWithin", absint.Const{T: types.Typ[types.Int64], V: constant.MakeInt64(int64(d))})
		}
		c.Explore("tolerance", name, c.Fn(cmpPkg, "TimeValueWithin").Pos(), cmpCfg(), func(s *Scn) {
			m := s.pm()
			f := mkType("T", pmessage("f", tsType)).fields[0]
			pick := func(n string) (Val, *time.Time) {
				i := s.Pick(n, len(times)+1)
				if i == len(times) {
					x := m.nativeMsg(tsType, s.ts(nil))
					x.readonly = true
					return m.value(&pvalue{f: f, v: &pval{set: true, m: x}}), nil
				}
				return m.value(&pvalue{f: f, v: &pval{set: true, m: m.nativeMsg(tsType, s.ts(&times[i]))}}), &times[i]
			}
			xv, x := pick("x")
			yv, y := pick("y")
			r := s.P.CallValue(mk(s), m.fd(f), xv, yv).(absint.TupleV)
			if !s.P.Truth(r[1]) {
				s.Stop("%s doesn't decide about timestamps", name)
			}
			want := x == nil && y == nil
			if x != nil && y != nil {
				want = absDiff(nanos(*x), nanos(*y)).Cmp(big.NewInt(int64(d))) <= 0
			}
			if got := s.P.Truth(r[0]); got != want {
				s.Fail("%s considers %v and %v equal=%v", name, timeName(x), timeName(y), got)
			}
		})
		if d == time.Second {
			otherKinds("tolerance", name, func(f *pfield) bool { return f.name == "ts" }, mk)
		}
	}

	durs := []time.Duration{0, 1, -1, 8, -8, 12, 16, -16, 1000, 1125, 1126, time.Second, time.Second + 1, -time.Second, 2 * time.Second, time.Hour, math.MaxInt64, math.MinInt64, math.MinInt64 + 1}
	durScn := func(name string, fn string, arg func() Val, within func(x, y int64) (is, decided bool)) {
		mk := func(s *Scn) Val { return s.F(cmpPkg, fn, arg()) }
		c.Explore("tolerance", name, c.Fn(cmpPkg, fn).Pos(), cmpCfg(), func(s *Scn) {
			m := s.pm()
			f := mkType("T", pmessage("f", durType)).fields[0]
			pick := func(n string) (Val, *time.Duration) {
				i := s.Pick(n, len(durs)+1)
				if i == len(durs) {
					x := m.nativeMsg(durType, s.dur(nil))
					x.readonly = true
					return m.value(&pvalue{f: f, v: &pval{set: true, m: x}}), nil
				}
				return m.value(&pvalue{f: f, v: &pval{set: true, m: m.nativeMsg(durType, s.dur(&durs[i]))}}), &durs[i]
			}
			xv, x := pick("x")
			yv, y := pick("y")
			r := s.P.CallValue(mk(s), m.fd(f), xv, yv).(absint.TupleV)
			if !s.P.Truth(r[1]) {
				s.Stop("%s doesn't decide about durations", name)
			}
			want := x == nil && y == nil
			decided := true
			if x != nil && y != nil {
				want, decided = within(int64(*x), int64(*y))
			}
			if got := s.P.Truth(r[0]); got != want && decided {
				s.Fail("%s considers %v and %v equal=%v", name, durName(x), durName(y), got)
			}
		})
		otherKinds("tolerance", name, func(f *pfield) bool { return f.name == "dur" }, mk)
	}
	for _, d := range []time.Duration{0, 1, time.Second, time.Hour} {
		durScn(fmt.Sprintf("DurationValueWithin(%v)", d), "DurationValueWithin", func() Val {
			return absint.Const{T: types.Typ[types.Int64], V: constant.MakeInt64(int64(d))}
		}, func(x, y int64) (is, decided bool) {
			return absDiff(big.NewInt(x), big.NewInt(y)).Cmp(big.NewInt(int64(d))) <= 0, true
		})
	}
	for _, pc := range []float64{0, 12.5, 50, 100} {
		durScn(fmt.Sprintf("DurationValueWithinP(%v)", pc), "DurationValueWithinP", func() Val {
			return absint.MkFloat(types.Typ[types.Float32], pc)
		}, func(x, y int64) (is, decided bool) {
			small := new(big.Int).Abs(big.NewInt(x))
			if a := new(big.Int).Abs(big.NewInt(y)); a.Cmp(small) < 0 {
				small = a
			}
			lim := new(big.Rat).Mul(new(big.Rat).SetInt(small), new(big.Rat).SetFloat64(pc/100))
			large := new(big.Int).Abs(big.NewInt(x))
			if a := new(big.Int).Abs(big.NewInt(y)); a.Cmp(large) > 0 {
				large = a
			}
			d := new(big.Rat).SetInt(absDiff(big.NewInt(x), big.NewInt(y)))
			return d.Cmp(lim) <= 0, beyondRounding(d, lim, new(big.Rat).SetInt(large))
		})
	}
}

// beyondRounding is whether a difference can be told from its limit using floating point numbers. scale is the larger of the
// numbers that the difference is of.
func beyondRounding(d, lim, scale *big.Rat) bool {
	off := new(big.Rat).Sub(d, lim)
	off.Abs(off)
	return off.Sign() == 0 || off.Cmp(new(big.Rat).Mul(scale, new(big.Rat).SetFloat64(math.Ldexp(1, -50)))) > 0
}

func nanos(t time.Time) *big.Int {
	n := new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1e9))
	return n.Add(n, big.NewInt(int64(t.Nanosecond())))
}

func absDiff(a, b *big.Int) *big.Int { return new(big.Int).Abs(new(big.Int).Sub(a, b)) }

func timeName(t *time.Time) string {
	if t == nil {
		return "nil"
	}
	return t.UTC().String()
}

func durName(d *time.Duration) string {
	if d == nil {
		return "nil"
	}
	return d.String()
}

func c16Logic(c *Ctx) {
	for _, name := range []string{"And", "Or"} {
		fn := c.Fn(cmpPkg, name)
		c.Explore("combinators", name, fn.Pos(), cmpCfg(), func(s *Scn) {
			n := s.Pick("comparers", 4)
			want := name == "And"
			var eqs []Val
			x, y := s.Msg("x"), s.Msg("y")
			for i := 0; i < n; i++ {
				b := s.Bool(fmt.Sprint("comparer ", i))
				if name == "And" {
					want = want && b
				} else {
					want = want || b
				}
				eqs = append(eqs, s.Native(fmt.Sprint("eq", i), func(args []Val) Val {
					if absint.Key(args[0]) != absint.Key(x) || absint.Key(args[1]) != absint.Key(y) {
						s.Fail("%s compares something else", name)
					}
					return absint.MkBool(b)
				}))
			}
			if got := s.P.Truth(s.P.CallValue(s.F(cmpPkg, name, eqs...), x, y)); got != want {
				s.Fail("%s of %d comparers answers %v", name, n, got)
			}
		})
	}
	for _, name := range []string{"ValueAnd", "ValueOr"} {
		fn := c.Fn(cmpPkg, name)
		c.Explore("combinators", name, fn.Pos(), cmpCfg(), func(s *Scn) {
			m := s.pm()
			f := mkType("T", pscalar("f")).fields[0]
			n := s.Pick("comparers", 4)
			want, wantOK := name == "ValueAnd", false
			var eqs []Val
			desc := ""
			for i := 0; i < n; i++ {
				ok := s.Bool(fmt.Sprint("comparer decides ", i))
				b := s.Bool(fmt.Sprint("comparer ", i))
				desc += fmt.Sprintf(" (equal=%v ok=%v)", b, ok)
				wantOK = wantOK || ok
				if ok && name == "ValueAnd" {
					want = want && b
				} else if ok {
					want = want || b
				}
				eqs = append(eqs, s.Native(fmt.Sprint("eq", i), func(args []Val) Val {
					return absint.TupleV{absint.MkBool(b), absint.MkBool(ok)}
				}))
			}
			v := m.value(&pvalue{f: f, v: setVal(absint.MkString("a"))})
			r := s.P.CallValue(s.F(cmpPkg, name, eqs...), m.fd(f), v, v).(absint.TupleV)
			if ok := s.P.Truth(r[1]); ok != wantOK {
				s.Fail("%s of%s decides=%v", name, desc, ok)
			} else if got := s.P.Truth(r[0]); ok && got != want {
				s.Fail("%s of%s answers %v", name, desc, got)
			}
		})
	}
}

// c16Resources checks what subscribers of resources with an equivalence get.
// c16Resources: what a subscriber to a resource with an equivalence holds is equivalent to the stored value, and never
// changes to something equivalent.
func c16Resources(c *Ctx) {
	n := 3
	if c.Tier == "thorough" {
		n = 4
	}
	for _, bp := range []bool{true, false} {
		suffix := ""
		if !bp {
			suffix = " without backpressure"
		}
		opts := func(s *Scn) subOpts {
			o := subOpts{backpressure: bp, slow: !bp, updatesOnly: s.Bool("updates only")}
			if bp && s.Bool("read mask") {
				o.mask = s.Mask("readMask")
			}
			return o
		}
		receive := func(s *Scn, rd *stepReader, i int) {
			if bp {
				rd.budget = 100 // all there is
				s.P.Settle()
			} else if s.Bool(fmt.Sprint("receives after ", i)) {
				rd.take()
			}
		}
		value := c.Method(resPkg, "Value", "Pull")
		c.Explore("equivalent-changes", "Value.Pull"+suffix, value.Pos(), c04Cfg(c), func(s *Scn) {
			r := newResValue(s, false, s.Bool("initial value"), s.eqComparer())
			o := opts(s)
			rd := s.stepReader(r.pull(s.Ctx("ctx"), o.build(s)...))
			held, due := "nil", []string{}
			if !o.updatesOnly && r.content != "nil" {
				due = append(due, o.view(r.content))
				held = due[0]
			}
			receive(s, rd, -1)
			for i := 0; i < n; i++ {
				if bp {
					rd.budget = 100
				}
				if !r.set(&wopts{}) {
					s.Fail("a write fails")
				}
				if v := o.view(r.content); !s.equivalent(held, v) {
					due = append(due, v)
					held = v
				}
				receive(s, rd, i)
			}
			for rd.take() {
			}
			var got []string
			for i, e := range rd.Events {
				v := s.Content(s.Field(e, "Value"))
				if i > 0 && s.equivalent(got[i-1], v) {
					s.Fail("a subscriber (%s) receives %s which is equivalent to %s it already has", o, v, got[i-1])
				}
				got = append(got, v)
			}
			if bp && strings.Join(got, "; ") != strings.Join(due, "; ") {
				s.Fail("a subscriber (%s) receives [%s] instead of [%s]", o, strings.Join(got, "; "), strings.Join(due, "; "))
			}
			last := "nil"
			if len(got) > 0 {
				last = got[len(got)-1]
			}
			if v := o.view(r.content); !s.equivalent(last, v) {
				s.Fail("a subscriber (%s) ends up with %s, the value %s is not equivalent to it", o, last, v)
			}
		})
		for _, meth := range []string{"Pull", "PullID"} {
			fn := c.Method(resPkg, "Collection", meth)
			c.Explore("equivalent-changes", "Collection."+meth+suffix, fn.Pos(), c04Cfg(c), func(s *Scn) {
				r := newResColl(s, false, s.eqComparer())
				r.write(true, strID("x"), &wopts{})
				o := opts(s)
				args := []Val{s.Ctx("ctx")}
				if meth == "PullID" {
					args = append(args, strID("x"))
				}
				rd := s.stepReader(s.M(r.v, resPkg, "Collection", meth, append(args, o.build(s)...)...)[0])
				receive(s, rd, -1)
				held := "nil"
				var due, all []string
				if !o.updatesOnly {
					held = o.view(r.items[0].content)
					due = append(due, held)
				}
				for i := 0; i < n; i++ {
					if bp {
						rd.budget = 100
					}
					r.write(false, strID("x"), &wopts{})
					v := o.view(r.items[0].content)
					all = append(all, v)
					if !o.updatesOnly && !s.equivalent(held, v) {
						due = append(due, v)
						held = v
					}
					receive(s, rd, i)
				}
				for rd.take() {
				}
				field := "NewValue"
				if meth == "PullID" {
					field = "Value"
				}
				var got []string
				for i, e := range rd.Events {
					v := s.Content(s.Field(e, field))
					if i > 0 && s.equivalent(got[i-1], v) {
						s.Fail("a subscriber (%s) receives %s which is equivalent to %s it already has", o, v, got[i-1])
					}
					got = append(got, v)
				}
				if o.updatesOnly && len(got) > 0 {
					// what such a subscriber has to start with is up to the implementation
					from := 0
					for from < len(all)-1 && all[from] != got[0] {
						from++
					}
					due = nil
					held = "nil"
					for _, v := range all[from:] {
						if !s.equivalent(held, v) {
							due = append(due, v)
							held = v
						}
					}
				}
				if bp && (!o.updatesOnly || len(got) > 0) && strings.Join(got, "; ") != strings.Join(due, "; ") {
					s.Fail("a subscriber (%s) receives [%s] instead of [%s]", o, strings.Join(got, "; "), strings.Join(due, "; "))
				}
				if len(got) > 0 && !s.equivalent(got[len(got)-1], o.view(r.items[0].content)) {
					s.Fail("a subscriber (%s) ends up with %s, the value %s is not equivalent to it", o, got[len(got)-1], o.view(r.items[0].content))
				}
			})
		}
	}
}
