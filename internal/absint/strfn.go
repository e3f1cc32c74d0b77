package absint

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

// strFn evaluates the functions of strconv and strings on constants.
func (p *Path) strFn(c *Call) (Val, bool) {
	if !strings.HasPrefix(c.Name, "strconv.") && !strings.HasPrefix(c.Name, "strings.") {
		return nil, false
	}
	a := c.Args
	str := func(i int) (string, bool) {
		if i >= len(a) {
			return "", false
		}
		return StringConst(p.Resolve(a[i]))
	}
	num := func(i int) (int64, bool) {
		if i >= len(a) {
			return 0, false
		}
		return IntConst(p.Resolve(a[i]))
	}
	res := func(i int) types.Type { return c.Sig.Results().At(i).Type() }
	pair := func(v Val, err error) (Val, bool) {
		if err != nil {
			return TupleV{p.zero(res(0), nil), p.MkErr(MkInt(2), MkString(err.Error()))}, true
		}
		return TupleV{v, p.zero(res(1), nil)}, true
	}
	list := func(ss []string) (Val, bool) {
		vs := make([]Val, len(ss))
		for i, s := range ss {
			vs[i] = MkString(s)
		}
		return p.MkSlice(res(0), "list", vs...), true
	}
	switch c.Name {
	case "strconv.Itoa":
		if n, ok := num(0); ok {
			return MkString(strconv.FormatInt(n, 10)), true
		}
	case "strconv.FormatInt":
		n, ok := num(0)
		b, ok2 := num(1)
		if ok && ok2 {
			return MkString(strconv.FormatInt(n, int(b))), true
		}
	case "strconv.Quote":
		if s, ok := str(0); ok {
			return MkString(strconv.Quote(s)), true
		}
	case "strconv.Atoi":
		if s, ok := str(0); ok {
			n, err := strconv.Atoi(s)
			return pair(MkInt(int64(n)), err)
		}
	case "strconv.ParseInt":
		s, ok := str(0)
		b, ok2 := num(1)
		w, ok3 := num(2)
		if ok && ok2 && ok3 {
			n, err := strconv.ParseInt(s, int(b), int(w))
			return pair(Const{res(0), constant.MakeInt64(n)}, err)
		}
	case "strconv.ParseBool":
		if s, ok := str(0); ok {
			v, err := strconv.ParseBool(s)
			return pair(MkBool(v), err)
		}
	case "strings.TrimSuffix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.Index", "strings.LastIndex", "strings.Count", "strings.Compare", "strings.Cut", "strings.Split", "strings.ContainsAny":
		s, ok := str(0)
		t, ok2 := str(1)
		if !ok || !ok2 {
			return nil, false
		}
		switch c.Name {
		case "strings.TrimSuffix":
			return MkString(strings.TrimSuffix(s, t)), true
		case "strings.Trim":
			return MkString(strings.Trim(s, t)), true
		case "strings.TrimLeft":
			return MkString(strings.TrimLeft(s, t)), true
		case "strings.TrimRight":
			return MkString(strings.TrimRight(s, t)), true
		case "strings.Index":
			return MkInt(int64(strings.Index(s, t))), true
		case "strings.LastIndex":
			return MkInt(int64(strings.LastIndex(s, t))), true
		case "strings.Count":
			return MkInt(int64(strings.Count(s, t))), true
		case "strings.Compare":
			return MkInt(int64(strings.Compare(s, t))), true
		case "strings.ContainsAny":
			return MkBool(strings.ContainsAny(s, t)), true
		case "strings.Split":
			return list(strings.Split(s, t))
		case "strings.Cut":
			x, y, f := strings.Cut(s, t)
			return TupleV{MkString(x), MkString(y), MkBool(f)}, true
		}
	case "strings.ReplaceAll":
		s, ok := str(0)
		x, ok2 := str(1)
		y, ok3 := str(2)
		if ok && ok2 && ok3 {
			return MkString(strings.ReplaceAll(s, x, y)), true
		}
	case "strings.TrimSpace":
		if s, ok := str(0); ok {
			return MkString(strings.TrimSpace(s)), true
		}
	case "strings.Repeat":
		s, ok := str(0)
		n, ok2 := num(1)
		if ok && ok2 && n >= 0 && n < 10000 {
			return MkString(strings.Repeat(s, int(n))), true
		}
	}
	return nil, false
}
