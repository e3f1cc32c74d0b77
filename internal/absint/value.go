// Package absint is a trace-partitioned abstract interpreter for go/ssa.
//
// It computes, for a function of the analysed program, the set of abstract paths through it (and through the functions
// it calls inside the analysed module, inlined up to a bound). Values are abstract: a parameter or the result of a call
// the analysis doesn't look into is an opaque term that stands for every value. A branch on a predicate whose truth isn't
// known partitions the trace and records the fact, so later branches on the same predicate are correlated.
// Nothing of the analysed program is compiled or run.
package absint

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value, one of the types below.
type Val interface{}

// Const is a known basic constant, or the nil/zero of a nilable type when V is nil.
type Const struct {
	T types.Type
	V constant.Value
}

// Sym is an opaque term.
type Sym struct {
	Key    string
	T      types.Type
	Op     string // what created the term, for calls the full name of the callee
	Args   []Val
	NonNil bool
}

// Cell is an abstract memory location.
type Cell struct {
	ID      int
	Label   string
	T       types.Type
	v       Val
	lazy    func() Val
	FromSym string // key of the symbolic pointer this cell is the target of
	Parent  *Cell  // the location of the aggregate this is part of
	Fresh   bool   // allocated by the analysed code
}

// Ptr is the address of a Cell.
type Ptr struct {
	T types.Type
	C *Cell
}

// StructV is a struct (or array) value; owned by the Cell it is stored in.
type StructV struct {
	T    types.Type // nil if the type isn't known yet
	Base string     // term describing what hasn't been overridden, "" for zero
	Src  string     // where fields that aren't overridden come from, a label used when creating them
	F    map[int]*Cell
	p    *Path
	home *Cell
}

// SliceV is a slice with known elements.
type SliceV struct {
	T      types.Type
	Arr    *ArrObj
	Lo, Hi int
	Cap    int // -1 not known, at least Hi
}

// ArrObj is the backing array of a SliceV
type ArrObj struct {
	Label string
	Cells []*Cell
	Fresh bool
}

// MapV is a map.
type MapV struct {
	T types.Type
	M *MapObj
}

// MapObj is the contents of a map.
type MapObj struct {
	ID      int
	Label   string
	Base    string // non-empty if there may be entries that haven't been looked at
	Entries []*MapEntry
	Fresh   bool
	ranged  bool
	symKeys []Val
}

// MapEntry is what is known about a key in a map.
type MapEntry struct {
	Key     Val
	Present bool
	Cell    *Cell
}

// ChanV is a channel created by the analysed code.
type ChanV struct {
	T types.Type
	C *ChanObj
}

// ChanObj is a channel.
type ChanObj struct {
	ID     int
	Label  string
	Buf    Val
	Closed bool
	Queue  []Val
}

// IfaceV is an interface value. T is the dynamic type, nil if not known.
type IfaceV struct {
	T types.Type
	V Val
}

// FuncV is a known function value.
type FuncV struct {
	Fn     *ssa.Function
	Bind   []Val
	Native func(p *Path, args []Val) Val
	Name   string
	T      types.Type
}

// TupleV is the result of a call with more than one result.
type TupleV []Val

func (c Const) String() string {
	if c.V == nil {
		return "nil"
	}
	return c.V.ExactString()
}

// Key returns a string that identifies the abstract value.
// Values with the same key are equal, values with different keys may or may not be.
func Key(v Val) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case Const:
		if v.V == nil {
			return "nil"
		}
		return v.V.ExactString()
	case FloatV:
		return v.key()
	case *Sym:
		return v.Key
	case Ptr:
		if v.C.FromSym != "" {
			return v.C.FromSym
		}
		return "&" + v.C.Label
	case *StructV:
		return v.ContentKey()
	case SliceV:
		var sb strings.Builder
		sb.WriteString("[")
		for i := v.Lo; i < v.Hi; i++ {
			if i > v.Lo {
				sb.WriteString(",")
			}
			sb.WriteString(Key(v.Arr.Cells[i].Load()))
		}
		sb.WriteString("]")
		return sb.String()
	case MapV:
		return "map:" + v.M.Label
	case ChanV:
		return "chan:" + v.C.Label
	case IfaceV:
		return Key(v.V)
	case *FuncV:
		if v.Fn != nil {
			s := "func:" + v.Fn.String()
			for _, b := range v.Bind {
				s += "|" + Key(b)
			}
			return s
		}
		return "func:" + v.Name
	case TupleV:
		parts := make([]string, len(v))
		for i := range v {
			parts[i] = Key(v[i])
		}
		return "(" + strings.Join(parts, ",") + ")"
	}
	return fmt.Sprintf("?%T", v)
}

// DeepKey is like Key but describes the contents of pointers to structs instead of where they are.
func DeepKey(v Val) string { return deepKey(v, 0) }

func deepKey(v Val, depth int) string {
	if depth > 6 {
		return Key(v)
	}
	switch v := v.(type) {
	case Ptr:
		if sv, ok := v.C.Load0().(*StructV); ok {
			return "&" + sv.deepContent(depth+1)
		}
		return "&(" + deepKey(v.C.Load(), depth+1) + ")"
	case *Sym:
		return v.Key
	case IfaceV:
		return deepKey(v.V, depth)
	case *StructV:
		return v.deepContent(depth)
	case SliceV:
		var parts []string
		for i := v.Lo; i < v.Hi; i++ {
			parts = append(parts, deepKey(v.Arr.Cells[i].Load(), depth+1))
		}
		return "[" + strings.Join(parts, ",") + "]"
	case MapV:
		var parts []string
		for _, e := range v.M.Entries {
			if e.Present {
				parts = append(parts, deepKey(e.Key, depth+1)+":"+deepKey(e.Cell.Load(), depth+1))
			}
		}
		sort.Strings(parts)
		return "map(" + v.M.Base + "){" + strings.Join(parts, ",") + "}"
	}
	return Key(v)
}

func (s *StructV) numFields() int {
	switch t := under(s.T).(type) {
	case *types.Struct:
		return t.NumFields()
	case *types.Array:
		return int(t.Len())
	}
	return 0
}

func (s *StructV) fieldName(i int) string {
	if t, ok := under(s.T).(*types.Struct); ok {
		return t.Field(i).Name()
	}
	return fmt.Sprintf("[%d]", i)
}

func (s *StructV) fieldType(i int) types.Type {
	switch t := under(s.T).(type) {
	case *types.Struct:
		return t.Field(i).Type()
	case *types.Array:
		return t.Elem()
	}
	return nil
}

// Field returns the cell for the i'th field.
func (s *StructV) Field(i int) *Cell {
	if c, ok := s.F[i]; ok {
		return c
	}
	name := s.fieldName(i)
	label := s.Src + "." + name
	if strings.HasPrefix(name, "[") {
		label = s.Src + name
	}
	c := s.p.newCell(label, s.fieldType(i))
	c.Parent = s.home
	if s.home != nil {
		c.Label = s.home.Label + "." + name
		c.Fresh = s.home.Fresh
	}
	ft := s.fieldType(i)
	if s.Base != "" {
		base := s.Base + "." + name
		c.lazy = func() Val { return s.p.symValue(base, ft, c) }
	} else {
		c.lazy = func() Val { return s.p.zero(ft, c) }
	}
	s.F[i] = c
	return c
}

// FieldByName returns the field with the given name or nil.
func (s *StructV) FieldByName(name string) *Cell {
	t, ok := under(s.T).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == name {
			return s.Field(i)
		}
	}
	return nil
}

// ContentKey describes the content of the struct.
func (s *StructV) ContentKey() string { return s.content(func(v Val) string { return Key(v) }) }

func (s *StructV) deepContent(depth int) string {
	return s.content(func(v Val) string { return deepKey(v, depth+1) })
}

func (s *StructV) content(key func(v Val) string) string {
	base := s.Base
	if base == "" {
		base = "zero"
		if s.T != nil {
			base = "zero(" + types.TypeString(s.T, func(p *types.Package) string { return p.Name() }) + ")"
		}
	}
	var over []string
	var idx []int
	for i := range s.F {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	for _, i := range idx {
		c := s.F[i]
		if c.v == nil {
			continue // never looked at
		}
		if n := s.fieldName(i); n == "state" || n == "sizeCache" || n == "unknownFields" {
			continue
		}
		k := key(c.v)
		var dflt string
		if s.Base != "" {
			dflt = s.Base + "." + s.fieldName(i)
		} else {
			dflt = key(s.p.zero(s.fieldType(i), nil))
		}
		if k == dflt {
			continue
		}
		over = append(over, s.fieldName(i)+"="+k)
	}
	if len(over) == 0 {
		return base
	}
	return base + "{" + strings.Join(over, ",") + "}"
}

func (s *StructV) copyTo(home *Cell, label string) *StructV {
	n := &StructV{T: s.T, Base: s.Base, Src: label, F: map[int]*Cell{}, p: s.p, home: home}
	for i, c := range s.F {
		if c.v == nil {
			continue
		}
		nc := s.p.newCell(label+"."+s.fieldName(i), c.T)
		nc.Parent = home
		if home != nil {
			nc.Fresh = home.Fresh
		}
		nc.v = s.p.copyVal(c.v, nc)
		n.F[i] = nc
	}
	return n
}

// Load0 returns the content of the cell without copying aggregates.
func (c *Cell) Load0() Val {
	if c.v == nil && c.lazy != nil {
		c.v = c.lazy()
	}
	return c.v
}

// Load returns the content of the cell.
func (c *Cell) Load() Val {
	v := c.Load0()
	if sv, ok := v.(*StructV); ok {
		return sv.copyTo(nil, sv.Src)
	}
	return v
}

// Loaded returns whether anything has been read from or written to the cell
func (c *Cell) Loaded() bool { return c.v != nil }

// Set changes the content of the cell, keeping the addresses of fields.
func (c *Cell) Set(p *Path, v Val) {
	if sv, ok := v.(*StructV); ok {
		cur, ok := c.v.(*StructV)
		if !ok {
			c.v = sv.copyTo(c, c.Label)
			return
		}
		// keep the field cells, their addresses may have been taken
		if cur.T == nil {
			cur.T = sv.T
		}
		old := cur.F
		cur.Base = sv.Base
		cur.F = map[int]*Cell{}
		for i, fc := range old {
			if nc, ok := sv.F[i]; ok && nc.v != nil {
				fc.Set(p, nc.Load())
			} else {
				fc.v = nil
				ft := sv.fieldType(i)
				fcc := fc
				if sv.Base != "" {
					base := sv.Base + "." + sv.fieldName(i)
					fc.lazy = func() Val { return p.symValue(base, ft, fcc) }
				} else {
					fc.lazy = func() Val { return p.zero(ft, fcc) }
				}
			}
			cur.F[i] = fc
		}
		for i, nc := range sv.F {
			if _, ok := cur.F[i]; ok || nc.v == nil {
				continue
			}
			cur.Field(i).Set(p, nc.Load())
		}
		return
	}
	c.v = v
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// IsNilConst returns whether v is known to be nil.
func IsNilConst(v Val) bool {
	c, ok := v.(Const)
	return ok && c.V == nil
}

// BoolConst returns the value of a known bool.
func BoolConst(v Val) (val, known bool) {
	if c, ok := v.(Const); ok && c.V != nil && c.V.Kind() == constant.Bool {
		return constant.BoolVal(c.V), true
	}
	return false, false
}

// IntConst returns the value of a known int.
func IntConst(v Val) (int64, bool) {
	if c, ok := v.(Const); ok && c.V != nil && c.V.Kind() == constant.Int {
		i, exact := constant.Int64Val(c.V)
		return i, exact
	}
	return 0, false
}

// StringConst returns the value of a known string.
func StringConst(v Val) (string, bool) {
	if c, ok := v.(Const); ok && c.V != nil && c.V.Kind() == constant.String {
		return constant.StringVal(c.V), true
	}
	return "", false
}

// MkBool makes a known bool.
func MkBool(b bool) Const { return Const{types.Typ[types.Bool], constant.MakeBool(b)} }

// MkInt makes a known int.
func MkInt(i int64) Const { return Const{types.Typ[types.Int], constant.MakeInt64(i)} }

// MkString makes a known string.
func MkString(s string) Const { return Const{types.Typ[types.String], constant.MakeString(s)} }

// MkNil makes a nil of type t.
func MkNil(t types.Type) Const { return Const{t, nil} }

// Unwrap removes interface wrappers.
func Unwrap(v Val) Val {
	for {
		i, ok := v.(IfaceV)
		if !ok {
			return v
		}
		v = i.V
	}
}
