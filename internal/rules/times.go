package rules

import (
	"go/constant"
	"go/types"
	"strings"
	"time"

	"scverify/internal/absint"
)

const (
	tsNS  = "google.golang.org/protobuf/types/known/timestamppb"
	durNS = "google.golang.org/protobuf/types/known/durationpb"
)

// timeCfg evaluates operations on times and durations that are known.
func timeCfg(cfg *absint.Config) *absint.Config {
	old := cfg.Hook
	cfg.Hook = func(c *absint.Call) (Val, bool) {
		if c.Fn != nil {
			if v, ok := timeFn(c); ok {
				return v, true
			}
		}
		if old != nil {
			return old(c)
		}
		return nil, false
	}
	return cfg
}

// MkTime is a known time.
func mkTime(p *absint.Path, t types.Type, x time.Time) Val {
	key := "time:" + x.UTC().Format("2006-01-02T15:04:05.999999999")
	if x.IsZero() {
		key = "time:zero"
	}
	p.Data[key] = x
	p.SetFact("nil:"+key, 1)
	return &absint.Sym{Key: key, T: t, Op: "time"}
}

func timeOfVal(p *absint.Path, v Val) (time.Time, bool) {
	v = p.Resolve(v)
	switch x := v.(type) {
	case *absint.Sym:
		t, ok := p.Data[x.Key].(time.Time)
		return t, ok && x.Op == "time"
	case *absint.StructV:
		if x.Base == "" && absint.Key(x) == absint.Key(p.Zero(x.T)) {
			return time.Time{}, true
		}
	case absint.Ptr:
		if x.C != nil {
			return timeOfVal(p, x.C.Load())
		}
	}
	return time.Time{}, false
}

// secNanos reads the fields of a Timestamp or Duration.
func secNanos(p *absint.Path, v Val) (s, n int64, ok bool) {
	v = absint.Unwrap(p.Resolve(v))
	if absint.IsNilConst(v) {
		return 0, 0, true
	}
	if _, isPtr := v.(absint.Ptr); !isPtr {
		return 0, 0, false
	}
	sv, isStruct := p.Deref(v).Load0().(*absint.StructV)
	if !isStruct || sv.Base != "" {
		return 0, 0, false
	}
	sc, nc := sv.FieldByName("Seconds"), sv.FieldByName("Nanos")
	if sc == nil || nc == nil {
		return 0, 0, false
	}
	s, ok1 := absint.IntConst(p.Resolve(sc.Load()))
	n, ok2 := absint.IntConst(p.Resolve(nc.Load()))
	return s, n, ok1 && ok2
}

func mkSecNanos(p *absint.Path, msg types.Type, s, n int64) Val {
	pv := p.Alloc(msg, "ts")
	sv := p.Deref(pv).Load0().(*absint.StructV)
	sv.FieldByName("Seconds").Set(p, absint.Const{T: types.Typ[types.Int64], V: constant.MakeInt64(s)})
	sv.FieldByName("Nanos").Set(p, absint.Const{T: types.Typ[types.Int32], V: constant.MakeInt64(n)})
	return pv
}

func resType(c *absint.Call) types.Type { return c.Sig.Results().At(0).Type() }

func pointee(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func mkDur(t types.Type, d time.Duration) Val {
	return absint.Const{T: t, V: constant.MakeInt64(int64(d))}
}

func asDuration(s, n int64) time.Duration {
	// the saturation of durationpb.AsDuration
	d := time.Duration(s) * time.Second
	overflow := d/time.Second != time.Duration(s)
	d += time.Duration(n)
	overflow = overflow || (s < 0 && n < 0 && d > 0)
	overflow = overflow || (s > 0 && n > 0 && d < 0)
	if overflow {
		if s < 0 {
			return time.Duration(-1 << 63)
		}
		return time.Duration(1<<63 - 1)
	}
	return d
}

func timeFn(c *absint.Call) (Val, bool) {
	p := c.P
	name := c.Name
	switch {
	case name == "(*"+tsNS+".Timestamp).AsTime":
		if s, n, ok := secNanos(p, c.Args[0]); ok {
			return mkTime(p, resType(c), time.Unix(s, n).UTC()), true
		}
	case name == tsNS+".New":
		if t, ok := timeOfVal(p, c.Args[0]); ok {
			return mkSecNanos(p, pointee(resType(c)), t.Unix(), int64(t.Nanosecond())), true
		}
	case name == "(*"+durNS+".Duration).AsDuration":
		if s, n, ok := secNanos(p, c.Args[0]); ok {
			return mkDur(resType(c), asDuration(s, n)), true
		}
	case name == durNS+".New":
		if d, ok := absint.IntConst(p.Resolve(c.Args[0])); ok {
			return mkSecNanos(p, pointee(resType(c)), d/1e9, d%1e9), true
		}
	case name == "(*"+tsNS+".Timestamp).IsValid", name == "(*"+tsNS+".Timestamp).CheckValid":
		if s, n, ok := secNanos(p, c.Args[0]); ok {
			valid := !absint.IsNilConst(p.Resolve(c.Args[0])) && s >= -62135596800 && s <= 253402300799 && n >= 0 && n < 1e9
			if strings.HasSuffix(name, "IsValid") {
				return absint.MkBool(valid), true
			}
			if valid {
				return absint.MkNil(errType), true
			}
			return p.MkErr(absint.MkInt(2), absint.MkString("invalid timestamp")), true
		}
	case name == "time.Unix":
		s, ok1 := absint.IntConst(p.Resolve(c.Args[0]))
		n, ok2 := absint.IntConst(p.Resolve(c.Args[1]))
		if ok1 && ok2 {
			return mkTime(p, resType(c), time.Unix(s, n).UTC()), true
		}
	case strings.HasPrefix(name, "(time.Time)."):
		t, ok := timeOfVal(p, c.Args[0])
		if !ok {
			return nil, false
		}
		var u time.Time
		var d int64
		if len(c.Args) > 1 {
			if u, ok = timeOfVal(p, c.Args[1]); !ok {
				if d, ok = absint.IntConst(p.Resolve(c.Args[1])); !ok {
					return nil, false
				}
			}
		}
		i64 := func(n int64) (Val, bool) {
			return absint.Const{T: resType(c), V: constant.MakeInt64(n)}, true
		}
		switch name[len("(time.Time)."):] {
		case "Before":
			return absint.MkBool(t.Before(u)), true
		case "After":
			return absint.MkBool(t.After(u)), true
		case "Equal":
			return absint.MkBool(t.Equal(u)), true
		case "Compare":
			return i64(int64(t.Compare(u)))
		case "Sub":
			return i64(int64(t.Sub(u)))
		case "Add":
			return mkTime(p, resType(c), t.Add(time.Duration(d))), true
		case "IsZero":
			return absint.MkBool(t.IsZero()), true
		case "Unix":
			return i64(t.Unix())
		case "UnixNano":
			return i64(t.UnixNano())
		case "UnixMilli":
			return i64(t.UnixMilli())
		case "Nanosecond":
			return i64(int64(t.Nanosecond()))
		case "UTC", "Local":
			return mkTime(p, resType(c), t), true
		}
	case strings.HasPrefix(name, "(time.Duration)."):
		d, ok := absint.IntConst(p.Resolve(c.Args[0]))
		if !ok {
			return nil, false
		}
		i64 := func(n int64) (Val, bool) {
			return absint.Const{T: resType(c), V: constant.MakeInt64(n)}, true
		}
		switch name[len("(time.Duration)."):] {
		case "Seconds":
			return absint.MkFloat(resType(c), time.Duration(d).Seconds()), true
		case "Minutes":
			return absint.MkFloat(resType(c), time.Duration(d).Minutes()), true
		case "Hours":
			return absint.MkFloat(resType(c), time.Duration(d).Hours()), true
		case "Nanoseconds":
			return i64(d)
		case "Milliseconds":
			return i64(time.Duration(d).Milliseconds())
		case "Microseconds":
			return i64(time.Duration(d).Microseconds())
		case "Abs":
			return i64(int64(time.Duration(d).Abs()))
		}
	}
	return nil, false
}

// ts is a Timestamp message, nil for none.
func (s *Scn) ts(t *time.Time) Val {
	mt := s.C.ExtType(tsNS, "Timestamp")
	if t == nil {
		return absint.MkNil(types.NewPointer(mt))
	}
	return mkSecNanos(s.P, mt, t.Unix(), int64(t.Nanosecond()))
}

// dur is a Duration message, nil for none.
func (s *Scn) dur(d *time.Duration) Val {
	mt := s.C.ExtType(durNS, "Duration")
	if d == nil {
		return absint.MkNil(types.NewPointer(mt))
	}
	return mkSecNanos(s.P, mt, int64(*d/time.Second), int64(*d%time.Second))
}
