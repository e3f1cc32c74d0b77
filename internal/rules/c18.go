package rules

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"go/constant"
	"go/types"

	"scverify/internal/absint"
)

const (
	timePkg   = "pkg/time"
	segPkg    = "pkg/trait/electricpb/segmentpb"
	modesPkg  = "pkg/trait/electricpb/modepb"
	traitsPkg = "github.com/smart-core-os/sc-api/go/traits"
	scTimePkg = "github.com/smart-core-os/sc-api/go/types/time"
)

func init() {
	register("C18", "timestamps", "Timestamps are compared chronologically, the result is -1, 0 or 1", c18Timestamps)
	register("C18", "periods", "Period predicates decide whether half-open intervals overlap or touch", c18Periods)
	register("C18", "segments", "Operations on segments commute with reading them as a step function, arguments are left alone", c18Segments)
	register("C18", "segment-sums", "The sum of segments is the pointwise sum of their step functions", c18Sums)
	register("C18", "modes", "Operations on modes commute with reading them as a function of time, arguments are left alone", c18Modes)
}

func c18Cfg() *absint.Config { return timeCfg(&absint.Config{MaxLoop: 200}) }

// instant is a point in time, compared by seconds then nanos.
type instant struct{ s, n int64 }

func (a instant) cmp(b instant) int {
	switch {
	case a.s < b.s || a.s == b.s && a.n < b.n:
		return -1
	case a == b:
		return 0
	}
	return 1
}

func (s *Scn) instant(x *instant) Val {
	mt := s.C.ExtType(tsNS, "Timestamp")
	if x == nil {
		return absint.MkNil(types.NewPointer(mt))
	}
	return mkSecNanos(s.P, mt, x.s, x.n)
}

func c18Timestamps(c *Ctx) {
	fn := c.Fn(timePkg, "CompareAscending")
	var tab []instant
	for _, s := range []int64{math.MinInt64, -1 << 33, -2, -1, 0, 1, 5, 1 << 33, math.MaxInt64} {
		for _, n := range []int64{0, 1, 5, 999999999} {
			tab = append(tab, instant{s, n})
		}
	}
	c.Explore("timestamps", "CompareAscending", fn.Pos(), c18Cfg(), func(s *Scn) {
		x, y := tab[s.Pick("x", len(tab))], tab[s.Pick("y", len(tab))]
		xv, yv := s.instant(&x), s.instant(&y)
		before := absint.DeepKey(xv) + absint.DeepKey(yv)
		got, ok := absint.IntConst(s.P.Resolve(s.Call(fn, xv, yv)[0]))
		if !ok || int(got) != x.cmp(y) {
			s.Fail("CompareAscending(%v, %v) is %d", x, y, got)
		}
		if before != absint.DeepKey(xv)+absint.DeepKey(yv) {
			s.Fail("CompareAscending changes its arguments")
		}
	})
}

func c18Periods(c *Ctx) {
	pt := c.ExtType(scTimePkg, "Period")
	tab := []*instant{nil}
	ends := []int64{0, 1, 2, 3}
	if c.Tier == "thorough" {
		ends = []int64{0, 1, 2, 3, 4, 5}
	}
	for _, s := range ends {
		for _, n := range []int64{0, 1, 999999999} {
			tab = append(tab, &instant{s, n})
		}
	}
	wide := []*instant{nil, {math.MinInt64, 0}, {math.MinInt64, 1}, {-1 << 40, 3}, {-1, 999999999}, {0, 0}, {1 << 40, 3}, {math.MaxInt64, 0}, {math.MaxInt64, 999999999}}
	for _, pred := range []string{"PeriodsIntersect", "PeriodsConnected"} {
		fn := c.Fn(timePkg, pred)
		for _, w := range []bool{false, true} {
			name, tab := pred, tab
			if w {
				name, tab = pred+" of extreme times", wide
			}
			c.Explore("periods", name, fn.Pos(), c18Cfg(), func(s *Scn) {
				type period struct{ s, e *instant }
				pick := func(n string) period {
					return period{tab[s.Pick(n+" start", len(tab))], tab[s.Pick(n+" end", len(tab))]}
				}
				p, q := pick("first"), pick("second")
				mk := func(p period) Val {
					return s.NewMsg(pt, "period", map[string]Val{"StartTime": s.instant(p.s), "EndTime": s.instant(p.e)})
				}
				show := func(p period) string {
					e := func(x *instant) string {
						if x == nil {
							return "-"
						}
						return fmt.Sprintf("%d.%09d", x.s, x.n)
					}
					return "[" + e(p.s) + "," + e(p.e) + ")"
				}
				inverted := func(p period) bool { return p.s != nil && p.e != nil && p.s.cmp(*p.e) > 0 }
				empty := func(p period) bool { return p.s != nil && p.e != nil && p.s.cmp(*p.e) >= 0 }
				pv, qv := mk(p), mk(q)
				before := absint.DeepKey(pv) + absint.DeepKey(qv)
				got := s.P.Truth(s.Call(fn, pv, qv)[0])
				back := s.P.Truth(s.Call(fn, qv, pv)[0])
				if got != back {
					s.Fail("%s(%s, %s) is %v but the other way around it's %v", pred, show(p), show(q), got, back)
				}
				if before != absint.DeepKey(pv)+absint.DeepKey(qv) {
					s.Fail("%s changes its arguments", pred)
				}
				// the latest start and the earliest end
				start, end := p.s, p.e
				if start == nil || q.s != nil && q.s.cmp(*start) > 0 {
					start = q.s
				}
				if end == nil || q.e != nil && q.e.cmp(*end) < 0 {
					end = q.e
				}
				var want bool
				if pred == "PeriodsIntersect" {
					want = !empty(p) && !empty(q) && (start == nil || end == nil || start.cmp(*end) < 0)
				} else {
					if inverted(p) || inverted(q) {
						return // those aren't intervals
					}
					want = start == nil || end == nil || start.cmp(*end) <= 0
				}
				if got != want {
					s.Fail("%s(%s, %s) is %v", pred, show(p), show(q), got)
				}
			})
		}
		c.Explore("periods", pred+" of nil", fn.Pos(), c18Cfg(), func(s *Scn) {
			nilP := absint.MkNil(types.NewPointer(pt))
			all := s.NewMsg(pt, "period", nil)
			args := []Val{nilP, all}
			switch s.Pick("which", 3) {
			case 0:
				args = []Val{nilP, nilP}
			case 1:
				args = []Val{all, nilP}
			}
			if s.P.Truth(s.Call(fn, args...)[0]) {
				s.Fail("%s finds that nothing overlaps", pred)
			}
		})
	}
	for name, want := range map[string][2]bool{"AllTime": {}, "PeriodBetween": {true, true}, "PeriodBefore": {false, true}, "PeriodOnOrAfter": {true, false}} {
		fn := c.Fn(timePkg, name)
		c.Explore("periods", name, fn.Pos(), c18Cfg(), func(s *Scn) {
			ts := []Val{s.instant(&instant{1, 2}), s.instant(&instant{3, 4})}
			var args []Val
			exp := [2]Val{}
			for i := range exp {
				if want[i] {
					exp[i] = ts[i]
					args = append(args, ts[i])
				}
			}
			p := s.Call(fn, args...)[0]
			for i, f := range []string{"StartTime", "EndTime"} {
				got := s.P.Resolve(s.Field(p, f))
				if s.P.IsNil(got) != (exp[i] == nil) || exp[i] != nil && absint.DeepKey(got) != absint.DeepKey(exp[i]) {
					s.Fail("%s has a wrong %s", name, f)
				}
			}
		})
	}
}

// sg is a segment: a magnitude for a length of time, -1 for ever.
type sg struct {
	mag float64
	len int64
}

type sgs []sg

func (l sgs) String() string {
	var r []string
	for _, x := range l {
		if x.len < 0 {
			r = append(r, fmt.Sprintf("%v for ever", x.mag))
		} else {
			r = append(r, fmt.Sprintf("%v for %d", x.mag, x.len))
		}
	}
	return "[" + strings.Join(r, ", ") + "]"
}

// at is the step function.
func (l sgs) at(t int64) (mag float64, ok bool) {
	if t < 0 {
		return 0, false
	}
	var cur int64
	for _, x := range l {
		if x.len < 0 || t < cur+x.len {
			return x.mag, true
		}
		cur += x.len
	}
	return 0, false
}

func (l sgs) total() (d int64, infinite bool) {
	for _, x := range l {
		if x.len < 0 {
			return d, true
		}
		d += x.len
	}
	return d, false
}

// active is the segment at t.
func (l sgs) active(t int64) (elapsed int64, index int) {
	if t < 0 {
		return t, 0
	}
	var cur int64
	for i, x := range l {
		if x.len < 0 || t < cur+x.len {
			return cur, i
		}
		cur += x.len
	}
	return cur, len(l)
}

// unit is the length of time the tables use, two so that there's something in between.
const unit = 2

// pickSegs chooses a list of at most n segments, only the last of them can be without end.
func (s *Scn) pickSegs(name string, n int, mags []float64, lens []int64) sgs {
	k := s.Pick(name+" segments", n+1)
	var l sgs
	for i := 0; i < k; i++ {
		key := fmt.Sprint(name, i)
		x := sg{mag: mags[s.Pick(key+" magnitude", len(mags))]}
		m := len(lens)
		if i == k-1 {
			m++
		}
		if j := s.Pick(key+" length", m); j < len(lens) {
			x.len = lens[j] * unit
		} else {
			x.len = -1
		}
		l = append(l, x)
	}
	return l
}

func (s *Scn) segment(x sg) Val {
	t := s.C.ExtType(traitsPkg, "ElectricMode_Segment")
	f := map[string]Val{"Magnitude": absint.MkFloat(types.Typ[types.Float32], x.mag), "Length": s.dur(nil)}
	if x.len >= 0 {
		d := time.Duration(x.len)
		f["Length"] = s.dur(&d)
	}
	return s.NewMsg(t, "segment", f)
}

func (s *Scn) segments(l sgs) Val {
	t := types.NewPointer(s.C.ExtType(traitsPkg, "ElectricMode_Segment"))
	var vs []Val
	for _, x := range l {
		vs = append(vs, s.segment(x))
	}
	return s.P.MkSlice(types.NewSlice(t), "segments", vs...)
}

// seg reads a segment.
func (s *Scn) seg(v Val) sg {
	m, ok := absint.FloatOf(s.P.Resolve(s.Field(v, "Magnitude")))
	if !ok {
		s.P.Stuck("the magnitude of a segment isn't known: %s", absint.DeepKey(v))
	}
	l := s.P.Resolve(s.Field(v, "Length"))
	if s.P.IsNil(l) {
		return sg{m, -1}
	}
	sec, n, ok := secNanos(s.P, l)
	if !ok {
		s.P.Stuck("the length of a segment isn't known: %s", absint.DeepKey(l))
	}
	return sg{m, int64(asDuration(sec, n))}
}

func (s *Scn) segsOf(v Val) sgs {
	v = s.P.Resolve(v)
	if s.P.IsNil(v) {
		return nil
	}
	sl, ok := s.P.SliceOf(v)
	if !ok {
		s.P.Stuck("the segments aren't known: %s", absint.DeepKey(v))
	}
	var l sgs
	for _, c := range sl.Arr.Cells[sl.Lo:sl.Hi] {
		l = append(l, s.seg(c.Load()))
	}
	return l
}

// frozen describes segments and what's in them, to notice changes.
func (s *Scn) frozen(v Val) string {
	v = s.P.Resolve(v)
	sl, ok := s.P.SliceOf(v)
	if !ok {
		return absint.DeepKey(v)
	}
	var r []string
	for _, c := range sl.Arr.Cells[sl.Lo:sl.Hi] {
		r = append(r, absint.Key(s.P.Resolve(c.Load()))+absint.DeepKey(c.Load()))
	}
	return strings.Join(r, ";")
}

// points are the times worth looking at.
func points(ls ...sgs) []int64 {
	m := map[int64]bool{}
	for _, l := range ls {
		var cur int64
		for _, x := range l {
			m[cur-1], m[cur], m[cur+1] = true, true, true
			if x.len < 0 {
				m[cur+100] = true
				break
			}
			cur += x.len
		}
		m[cur-1], m[cur], m[cur+1], m[cur+50] = true, true, true, true
	}
	m[-1], m[0], m[1] = true, true, true
	var r []int64
	for t := range m {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (s *Scn) durVal(d int64) Val {
	return absint.Const{T: s.C.ExtType("time", "Duration"), V: constant.MakeInt64(d)}
}

var (
	segMags = []float64{0, 1, 3}
	segLens = []int64{0, 1, 3}
)

func c18Segments(c *Ctx) {
	n := 3
	if c.Tier == "thorough" {
		n = 4
	}
	mags := append([]float64{-2}, segMags...)
	if n > 3 {
		mags = []float64{-2, 0, 1}
	}
	scn := func(fn string, what string, f func(s *Scn, l sgs, arg Val, call func(args ...Val) []Val)) {
		f0 := c.Fn(segPkg, fn)
		c.Explore("segments", what, f0.Pos(), c18Cfg(), func(s *Scn) {
			l := s.pickSegs("", n, mags, segLens)
			arg := s.segments(l)
			before := s.frozen(arg)
			f(s, l, arg, func(args ...Val) []Val {
				r := s.Call(f0, args...)
				if s.frozen(arg) != before {
					s.Fail("%s changes the segments %s it's given", fn, l)
				}
				return r
			})
		})
	}
	i64 := func(s *Scn, v Val) int64 {
		n, ok := absint.IntConst(s.P.Resolve(v))
		if !ok {
			s.P.Stuck("a result isn't known: %s", absint.DeepKey(v))
		}
		return n
	}
	flt := func(s *Scn, v Val) float64 {
		n, ok := absint.FloatOf(s.P.Resolve(v))
		if !ok {
			s.P.Stuck("a result isn't known: %s", absint.DeepKey(v))
		}
		return n
	}
	scn("ActiveAt", "ActiveAt", func(s *Scn, l sgs, arg Val, call func(args ...Val) []Val) {
		for _, d := range points(l) {
			r := call(s.durVal(d), arg)
			e, i := l.active(d)
			if len(l) == 0 && d >= 0 {
				e, i = 0, 0
			}
			if i64(s, r[0]) != e || i64(s, r[1]) != int64(i) {
				s.Fail("ActiveAt(%d, %s) is %d after %d instead of %d after %d", d, l, i64(s, r[1]), i64(s, r[0]), i, e)
			}
		}
	})
	scn("MagnitudeAt", "MagnitudeAt", func(s *Scn, l sgs, arg Val, call func(args ...Val) []Val) {
		for _, d := range points(l) {
			r := call(s.durVal(d), arg)
			m, ok := l.at(d)
			if flt(s, r[0]) != m || s.P.Truth(r[1]) != ok {
				s.Fail("MagnitudeAt(%d, %s) is %v, %v instead of %v, %v", d, l, flt(s, r[0]), s.P.Truth(r[1]), m, ok)
			}
		}
	})
	scn("Duration", "Duration", func(s *Scn, l sgs, arg Val, call func(args ...Val) []Val) {
		r := call(arg)
		d, inf := l.total()
		if i64(s, r[0]) != d || s.P.Truth(r[1]) != inf {
			s.Fail("Duration(%s) is %d, %v instead of %d, %v", l, i64(s, r[0]), s.P.Truth(r[1]), d, inf)
		}
	})
	largest := func(l sgs) (m float64, found bool) {
		for _, x := range l {
			if x.len != 0 && (!found || x.mag > m) {
				m, found = x.mag, true
			}
		}
		return
	}
	isMax := func(s *Scn, what string, l sgs, from int, got int64) {
		m, found := largest(l[from:])
		switch {
		case !found:
			if got != int64(len(l)) {
				s.Fail("%s is %d although there's no such segment", what, got)
			}
		case got < int64(from) || got >= int64(len(l)) || l[got].len == 0 || l[got].mag != m:
			s.Fail("%s is %d, the largest magnitude is %v", what, got, m)
		}
	}
	scn("Max", "Max", func(s *Scn, l sgs, arg Val, call func(args ...Val) []Val) {
		isMax(s, fmt.Sprintf("Max(%s)", l), l, 0, i64(s, call(arg)[0]))
	})
	scn("MaxAfter", "MaxAfter", func(s *Scn, l sgs, arg Val, call func(args ...Val) []Val) {
		for _, d := range points(l) {
			_, from := l.active(d)
			isMax(s, fmt.Sprintf("MaxAfter(%d, %s)", d, l), l, from, i64(s, call(s.durVal(d), arg)[0]))
		}
	})
	scn("MaxMagnitude", "MaxMagnitude", func(s *Scn, l sgs, arg Val, call func(args ...Val) []Val) {
		m, _ := largest(l)
		if got := flt(s, call(arg)[0]); got != m {
			s.Fail("MaxMagnitude(%s) is %v instead of %v", l, got, m)
		}
	})
	scn("SumMagnitude", "SumMagnitude", func(s *Scn, l sgs, arg Val, call func(args ...Val) []Val) {
		m := 0.0
		for _, x := range l {
			m += x.mag
		}
		if got := flt(s, call(arg)[0]); got != m {
			s.Fail("SumMagnitude(%s) is %v instead of %v", l, got, m)
		}
	})
	scn("Shift", "Shift", func(s *Scn, l sgs, arg Val, call func(args ...Val) []Val) {
		ds := map[int64]bool{-50: true, 50: true}
		for _, t := range points(l) {
			ds[t], ds[-t] = true, true
		}
		for d := range ds {
			got := s.segsOf(call(s.durVal(d), arg)[0])
			what := fmt.Sprintf("Shift(%d, %s) = %s", d, l, got)
			ts := points(l, got)
			for _, t := range ts {
				ts = append(ts, t+d, t-d)
			}
			for _, t := range ts {
				m, ok := got.at(t)
				wm, wok := l.at(t - d)
				if t < 0 {
					wm, wok = 0, false
				}
				if m != wm {
					s.Fail("%s: the magnitude at %d is %v instead of %v", what, t, m, wm)
				}
				if (t >= d || t < 0) && ok != wok && len(l) > 0 {
					s.Fail("%s: there's a segment at %d: %v", what, t, ok)
				}
			}
		}
	})
	cut := c.Fn(segPkg, "Cut")
	shapeT := c.ExtType(traitsPkg, "ElectricMode_Segment_Fixed")
	c.Explore("segments", "Cut", cut.Pos(), c18Cfg(), func(s *Scn) {
		l := sgs{{mag: mags[s.Pick("magnitude", len(mags))], len: []int64{0, 2, 6, -1}[s.Pick("length", 4)]}}
		x := l[0]
		v := s.segment(x)
		fixed := x.len >= 0 && s.Bool("fixed shape")
		if fixed {
			sh := s.NewMsg(shapeT, "shape", map[string]Val{"Fixed": absint.MkFloat(types.Typ[types.Float32], 7)})
			s.SetField(v, "Shape", Iface2(types.NewPointer(shapeT), sh))
		}
		shaped := func(v Val) bool {
			sh := absint.Unwrap(s.P.Resolve(s.Field(v, "Shape")))
			if s.P.IsNil(sh) {
				return false
			}
			f, ok := absint.FloatOf(s.P.Resolve(s.Field(sh, "Fixed")))
			return ok && f == 7
		}
		before := absint.DeepKey(v)
		for d := int64(-3); d < 10; d++ {
			r := s.Call(cut, s.durVal(d), v)
			if absint.DeepKey(v) != before {
				s.Fail("Cut changes the segment %s it's given", l)
			}
			var parts sgs
			var bl, al sgs
			if !s.P.IsNil(r[0]) {
				bl = sgs{s.seg(r[0])}
				if shaped(r[0]) != fixed {
					s.Fail("Cut(%d, %s) loses the shape", d, l)
				}
			}
			if !s.P.IsNil(r[1]) {
				al = sgs{s.seg(r[1])}
				if shaped(r[1]) != fixed {
					s.Fail("Cut(%d, %s) loses the shape", d, l)
				}
			}
			parts = append(append(parts, bl...), al...)
			what := fmt.Sprintf("Cut(%d, %s) = %s, %s", d, l, bl, al)
			for _, t := range points(l, parts, bl) {
				m, ok := parts.at(t)
				if wm, wok := l.at(t); m != wm || ok != wok {
					s.Fail("%s: the magnitude at %d is %v, %v instead of %v, %v", what, t, m, ok, wm, wok)
				}
			}
			if n, inf := bl.total(); inf || d >= 0 && x.len != 0 && n != min(d, maxLen(x)) {
				s.Fail("%s: the first part isn't what's before %d", what, d)
			}
			if d < 0 && (bl != nil || al == nil) {
				s.Fail("%s: there's nothing before %d", what, d)
			}
			if out := s.P.Truth(r[2]); d != 0 && out != (d < 0 || x.len >= 0 && d >= x.len) || d == 0 && out && x.len != 0 {
				s.Fail("%s: outside is %v", what, out)
			}
		}
	})
}

func maxLen(x sg) int64 {
	if x.len < 0 {
		return math.MaxInt64
	}
	return x.len
}

// checkSum compares a sum with the step functions it's of.
func (s *Scn) checkSum(what string, got sgs, ls []sgs, shift []int64) {
	var sh []sgs
	for i, l := range ls {
		if shift[i] > 0 {
			l = append(sgs{{0, shift[i]}}, l...)
		}
		sh = append(sh, l)
	}
	for _, t := range points(append(sh, got)...) {
		want := 0.0
		some := false
		for _, l := range sh {
			m, ok := l.at(t)
			want += m
			some = some || ok
		}
		m, ok := got.at(t)
		if m != want {
			s.Fail("%s: the magnitude at %d is %v instead of %v", what, t, m, want)
		}
		if ok && !some {
			s.Fail("%s: there's a segment at %d", what, t)
		}
	}
}

func c18Sums(c *Ctx) {
	fn := c.Fn(segPkg, "Sum")
	for _, cs := range []struct {
		lists, n int
		mags     []float64
		lens     []int64
	}{{0, 0, nil, nil}, {1, 3, []float64{0, 1, -1}, segLens}, {2, 2, []float64{0, 1, -1}, segLens}, {3, 1, []float64{0, 1, -1}, segLens}, {3, 2, []float64{1}, []int64{1, 3}}, {4, 1, []float64{1, -1}, []int64{0, 1}}, {4, 2, []float64{2}, []int64{1}}} {
		c.Explore("segment-sums", fmt.Sprintf("Sum of %d lists of %d segments, magnitudes %v", cs.lists, cs.n, cs.mags), fn.Pos(), c18Cfg(), func(s *Scn) {
			var ls []sgs
			var args []Val
			var before []string
			for i := 0; i < cs.lists; i++ {
				l := s.pickSegs(fmt.Sprint("list ", i, " "), cs.n, cs.mags, cs.lens)
				ls = append(ls, l)
				args = append(args, s.segments(l))
				before = append(before, s.frozen(args[i]))
			}
			t := fn.Signature.Params().At(0).Type()
			got := s.segsOf(s.Call(fn, s.P.MkSlice(t, "lists", args...))[0])
			what := fmt.Sprintf("Sum(%v) = %s", ls, got)
			for i, a := range args {
				if s.frozen(a) != before[i] {
					s.Fail("%s changes its arguments", what)
				}
			}
			s.checkSum(what, got, ls, make([]int64, len(ls)))
		})
	}
}

// emode is an electric mode, it has a start time or none.
type emode struct {
	start *int64 // relative to an arbitrary time
	segs  sgs
}

func (m emode) String() string {
	if m.start == nil {
		return m.segs.String()
	}
	return fmt.Sprintf("%s from %d", m.segs, *m.start)
}

// epoch is what times of modes are relative to.
var epoch = time.Unix(1000000000, 999999998).UTC()

func (s *Scn) at(t int64) Val {
	return mkTime(s.P, s.C.ExtType("time", "Time"), epoch.Add(time.Duration(t)))
}

func (s *Scn) pickMode(name string, n int, mags []float64, lens []int64, starts []int64) emode {
	m := emode{segs: s.pickSegs(name, n, mags, lens)}
	if i := s.Pick(name+" start", len(starts)+1); i < len(starts) {
		m.start = &starts[i]
	}
	return m
}

func (s *Scn) mode(m emode) Val {
	t := s.C.ExtType(traitsPkg, "ElectricMode")
	f := map[string]Val{"Segments": s.segments(m.segs), "StartTime": s.ts(nil), "Id": absint.MkString("mode")}
	if m.start != nil {
		st := epoch.Add(time.Duration(*m.start))
		f["StartTime"] = s.ts(&st)
	}
	return s.NewMsg(t, "mode", f)
}

func (s *Scn) frozenMode(v Val) string {
	return absint.DeepKey(s.Field(v, "StartTime")) + s.frozen(s.Field(v, "Segments")) + absint.DeepKey(s.Field(v, "Id"))
}

func (s *Scn) modeOf(v Val) emode {
	m := emode{segs: s.segsOf(s.Field(v, "Segments"))}
	st := s.P.Resolve(s.Field(v, "StartTime"))
	if !s.P.IsNil(st) {
		sec, n, ok := secNanos(s.P, st)
		if !ok {
			s.P.Stuck("the start time of a mode isn't known: %s", absint.DeepKey(st))
		}
		d := int64(time.Unix(sec, n).Sub(epoch))
		m.start = &d
	}
	return m
}

// at is the function of time a mode is when it's looked at at the time now, which is when modes without start time start.
func (m emode) at(t, now int64) (float64, bool) {
	if m.start != nil {
		now = *m.start
	}
	return m.segs.at(t - now)
}

func c18Modes(c *Ctx) {
	n := 2
	if c.Tier == "thorough" {
		n = 3
	}
	starts := []int64{0, 5}
	times := []int64{-3, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 60}
	scn := func(name string, f func(s *Scn, m emode, v Val, call func(args ...Val) []Val)) {
		fn := c.Fn(modesPkg, name)
		c.Explore("modes", name, fn.Pos(), c18Cfg(), func(s *Scn) {
			m := s.pickMode("", n, segMags, segLens, starts)
			v := s.mode(m)
			before := s.frozenMode(v)
			f(s, m, v, func(args ...Val) []Val {
				r := s.Call(fn, args...)
				if s.frozenMode(v) != before {
					s.Fail("%s changes the mode %s it's given", name, m)
				}
				return r
			})
		})
	}
	i64 := func(v Val) int64 {
		n, _ := absint.IntConst(v)
		return n
	}
	since := func(m emode, t int64) int64 {
		if m.start == nil {
			return 0
		}
		return t - *m.start
	}
	scn("ActiveAt", func(s *Scn, m emode, v Val, call func(args ...Val) []Val) {
		for _, t := range times {
			r := call(s.at(t), v)
			e, i := m.segs.active(since(m, t))
			if i64(s.P.Resolve(r[0])) != e || i64(s.P.Resolve(r[1])) != int64(i) {
				s.Fail("ActiveAt(%d, %s) is %d after %d instead of %d after %d", t, m, i64(s.P.Resolve(r[1])), i64(s.P.Resolve(r[0])), i, e)
			}
		}
	})
	scn("MagnitudeAt", func(s *Scn, m emode, v Val, call func(args ...Val) []Val) {
		for _, t := range times {
			r := call(s.at(t), v)
			mag, ok := m.at(t, t)
			if f, known := absint.FloatOf(s.P.Resolve(r[0])); !known || f != mag || s.P.Truth(r[1]) != ok {
				s.Fail("MagnitudeAt(%d, %s) is %v, %v instead of %v, %v", t, m, f, s.P.Truth(r[1]), mag, ok)
			}
		}
	})
	scn("MaxSegmentAfter", func(s *Scn, m emode, v Val, call func(args ...Val) []Val) {
		for _, t := range times {
			got := i64(s.P.Resolve(call(s.at(t), v)[0]))
			_, from := m.segs.active(since(m, t))
			best, found := 0.0, false
			for _, x := range m.segs[from:] {
				if x.len != 0 && (!found || x.mag > best) {
					best, found = x.mag, true
				}
			}
			if !found && got != int64(len(m.segs)) || found && (got < int64(from) || got >= int64(len(m.segs)) || m.segs[got].len == 0 || m.segs[got].mag != best) {
				s.Fail("MaxSegmentAfter(%d, %s) is %d", t, m, got)
			}
		}
	})
	scn("Shift", func(s *Scn, m emode, v Val, call func(args ...Val) []Val) {
		for _, d := range []int64{-8, -3, -2, -1, 0, 1, 2, 7} {
			got := s.modeOf(call(s.durVal(d), v)[0])
			what := fmt.Sprintf("Shift(%d, %s) = %s", d, m, got)
			if (got.start == nil) != (m.start == nil) {
				s.Fail("%s: gains or loses its start time", what)
				continue
			}
			for t := int64(-20); t < 30; t++ {
				g, gok := got.at(t, 0)
				w, wok := m.at(t-d, 0)
				if m.start == nil && t < 0 {
					w, wok = 0, false // cut off
				}
				if g != w || gok != wok && (m.start != nil || len(m.segs) > 0 && t >= d) {
					s.Fail("%s: the magnitude at %d is %v, %v instead of %v, %v", what, t, g, gok, w, wok)
				}
			}
		}
	})
	scn("Cut", func(s *Scn, m emode, v Val, call func(args ...Val) []Val) {
		for _, t := range times {
			r := call(s.at(t), v)
			what := fmt.Sprintf("Cut(%d, %s)", t, m)
			hasB, hasA := !s.P.IsNil(r[0]), !s.P.IsNil(r[1])
			if len(m.segs) == 0 {
				continue // neither inside nor outside
			}
			if m.start == nil {
				if hasB || !hasA || s.P.Truth(r[2]) {
					s.Fail("%s: doesn't have everything after its start", what)
				}
				continue
			}
			var b, a emode
			if hasB {
				b = s.modeOf(r[0])
			}
			if hasA {
				a = s.modeOf(r[1])
			}
			if hasB && b.start == nil || hasA && a.start == nil {
				s.Fail("%s: loses its start time", what)
				continue
			}
			for u := int64(-10); u < 80; u++ {
				w, wok := m.at(u, 0)
				var g1, g2 float64
				var ok1, ok2 bool
				if hasB {
					g1, ok1 = b.at(u, 0)
				}
				if hasA {
					g2, ok2 = a.at(u, 0)
				}
				switch {
				case u < t && (g1 != w || ok1 != wok || ok2), u >= t && (g2 != w || ok2 != wok || ok1):
					s.Fail("%s = %s, %s: the magnitude at %d isn't %v, %v", what, b, a, u, w, wok)
				}
			}
			total, inf := m.segs.total()
			if out := t < *m.start || !inf && t > *m.start+total; out && !s.P.Truth(r[2]) {
				s.Fail("%s: isn't outside", what)
			}
			if in := t > *m.start && (inf || t < *m.start+total); in && s.P.Truth(r[2]) {
				s.Fail("%s: is outside", what)
			}
		}
	})
	sum := c.Fn(modesPkg, "Sum")
	for _, cs := range []struct {
		modes, n int
		mags     []float64
		lens     []int64
		starts   []int64
	}{{1, 2, segMags, segLens, []int64{0, 3}}, {2, 1, []float64{0, 1, -1}, segLens, []int64{0, 1, 7}}, {2, 2, []float64{1}, []int64{1, 3}, []int64{-2, 1}}, {3, 1, []float64{1}, []int64{2}, []int64{-3, 0, 1}}} {
		c.Explore("modes", fmt.Sprintf("Sum of %d modes of %d segments, magnitudes %v", cs.modes, cs.n, cs.mags), sum.Pos(), c18Cfg(), func(s *Scn) {
			var ms []emode
			var args []Val
			var before []string
			for i := 0; i < cs.modes; i++ {
				m := s.pickMode(fmt.Sprint("mode ", i, " "), cs.n, cs.mags, cs.lens, cs.starts)
				ms = append(ms, m)
				args = append(args, s.mode(m))
				before = append(before, s.frozenMode(args[i]))
			}
			t := sum.Signature.Params().At(0).Type()
			got := s.modeOf(s.Call(sum, s.P.MkSlice(t, "modes", args...))[0])
			what := fmt.Sprintf("Sum(%v) = %s", ms, got)
			for i, a := range args {
				if s.frozenMode(a) != before[i] {
					s.Fail("%s changes its arguments", what)
				}
			}
			var earliest, latest *int64
			for _, m := range ms {
				if m.start != nil && (earliest == nil || *m.start < *earliest) {
					earliest = m.start
				}
				if m.start != nil && (latest == nil || *m.start > *latest) {
					latest = m.start
				}
			}
			if (earliest == nil) != (got.start == nil) || earliest != nil && *earliest != *got.start {
				s.Fail("%s: doesn't start when the first does", what)
				return
			}
			var ls []sgs
			var shift []int64
			for _, m := range ms {
				d := int64(0)
				switch {
				case earliest == nil:
				case m.start == nil:
					d = *latest - *earliest
				default:
					d = *m.start - *earliest
				}
				ls, shift = append(ls, m.segs), append(shift, d)
			}
			s.checkSum(what, got.segs, ls, shift)
		})
	}
	minAt := c.Fn(modesPkg, "MinAt")
	c.Explore("modes", "MinAt", minAt.Pos(), c18Cfg(), func(s *Scn) {
		t := minAt.Signature.Params().At(1).Type()
		mv := s.P.MkMap(t, "modes")
		k := s.Pick("modes", 4)
		best, known := 0.0, map[string]emode{}
		for i := 0; i < k; i++ {
			m := s.pickMode(fmt.Sprint("mode ", i, " "), 1, []float64{-1, 1, 2}, []int64{1}, []int64{0})
			v := s.mode(m)
			s.P.MapPut(mv, absint.MkString(fmt.Sprint(i)), v)
			known[absint.Key(v)] = m
			if g, _ := m.at(1, 1); i == 0 || g < best {
				best = g
			}
		}
		r := s.Call(minAt, s.at(1), mv)
		if s.P.IsNil(r[0]) != (k == 0) {
			s.Fail("MinAt of %d modes finds one: %v", k, !s.P.IsNil(r[0]))
			return
		}
		if k == 0 {
			return
		}
		m, ok := known[absint.Key(s.P.Resolve(r[0]))]
		g, _ := m.at(1, 1)
		if f, fok := absint.FloatOf(s.P.Resolve(r[1])); !ok || !fok || g != best || f != best {
			s.Fail("MinAt finds %s with %v instead of a mode with %v", m, f, best)
		}
	})
}
