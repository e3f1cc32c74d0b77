package absint

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"
)

// FloatV is a floating point value that constants can't represent: NaN, the infinities and negative zero.
type FloatV struct {
	T types.Type
	F float64
}

func (f FloatV) key() string {
	if f.F == 0 && math.Signbit(f.F) {
		return "-0"
	}
	return strconv.FormatFloat(f.F, 'g', -1, 64)
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// FloatOf returns the value of a known float.
func FloatOf(v Val) (float64, bool) {
	switch x := v.(type) {
	case FloatV:
		return x.F, true
	case Const:
		if x.V == nil {
			return 0, false
		}
		switch x.V.Kind() {
		case constant.Int, constant.Float:
			f, _ := constant.Float64Val(x.V)
			return f, true
		}
	}
	return 0, false
}

// MkFloat creates a float of the given type.
func MkFloat(t types.Type, f float64) Val {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		f = float64(float32(f))
	}
	if math.IsNaN(f) || math.IsInf(f, 0) || f == 0 && math.Signbit(f) {
		return FloatV{t, f}
	}
	return Const{t, constant.MakeFloat64(f)}
}

// floatOp evaluates an operation on known floats.
func floatOp(op token.Token, x, y Val, t, operand types.Type) (Val, bool) {
	if !isFloat(operand) {
		return nil, false
	}
	a, ok1 := FloatOf(x)
	b, ok2 := FloatOf(y)
	if !ok1 || !ok2 {
		return nil, false
	}
	switch op {
	case token.EQL:
		return MkBool(a == b), true
	case token.NEQ:
		return MkBool(a != b), true
	case token.LSS:
		return MkBool(a < b), true
	case token.LEQ:
		return MkBool(a <= b), true
	case token.GTR:
		return MkBool(a > b), true
	case token.GEQ:
		return MkBool(a >= b), true
	case token.ADD:
		return MkFloat(t, a+b), true
	case token.SUB:
		return MkFloat(t, a-b), true
	case token.MUL:
		return MkFloat(t, a*b), true
	case token.QUO:
		return MkFloat(t, a/b), true
	}
	return nil, false
}

// floatFn evaluates a function of package math.
func floatFn(c *Call) (Val, bool) {
	if !strings.HasPrefix(c.Name, "math.") {
		return nil, false
	}
	var fs []float64
	for _, a := range c.Args {
		f, ok := FloatOf(c.P.Resolve(a))
		if !ok {
			return nil, false
		}
		fs = append(fs, f)
	}
	t := types.Typ[types.Float64]
	one := map[string]func(float64) float64{"Abs": math.Abs, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round, "RoundToEven": math.RoundToEven, "Sqrt": math.Sqrt, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp}
	two := map[string]func(a, b float64) float64{"Max": math.Max, "Min": math.Min, "Mod": math.Mod, "Pow": math.Pow, "Copysign": math.Copysign, "Dim": math.Dim, "Hypot": math.Hypot, "Remainder": math.Remainder}
	name := c.Name[5:]
	switch {
	case one[name] != nil && len(fs) == 1:
		return MkFloat(t, one[name](fs[0])), true
	case two[name] != nil && len(fs) == 2:
		return MkFloat(t, two[name](fs[0], fs[1])), true
	}
	switch name {
	case "IsNaN":
		return MkBool(math.IsNaN(fs[0])), true
	case "IsInf":
		return MkBool(math.IsInf(fs[0], int(fs[1]))), true
	case "Inf":
		return MkFloat(t, math.Inf(int(fs[0]))), true
	case "NaN":
		return MkFloat(t, math.NaN()), true
	case "Signbit":
		return MkBool(math.Signbit(fs[0])), true
	}
	return nil, false
}
