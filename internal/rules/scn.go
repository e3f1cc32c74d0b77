package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"scverify/internal/absint"
)

// Scn is one abstract path of a scenario.
type Scn struct {
	C           *Ctx
	P           *absint.Path
	NoLeakCheck bool
	ctxs        []Val
	readers     []*Reader
	ticks       int
}

// Fail reports a violation, once per path is enough.
func (s *Scn) Fail(format string, args ...any) {
	s.P.Fail(format, args...)
}

// Stop abandons the path after a violation.
func (s *Scn) Stop(format string, args ...any) {
	s.P.Fail(format, args...)
	s.P.Cut("failed")
}

// Call calls a function of the module.
func (s *Scn) Call(fn *ssa.Function, args ...Val) []Val {
	o := s.P.CallFn(fn, args...)
	return s.out(fn.String(), o)
}

func (s *Scn) out(what string, o absint.Outcome) []Val {
	if o.Panic {
		in := ""
		if o.Fn != nil {
			in = " in " + o.Fn.String()
		}
		s.Stop("%s panics: %s%s", what, o.Reason, in)
	}
	if o.Block {
		s.Stop("%s never returns: %s", what, o.Reason)
	}
	return o.Ret
}

// F calls a package level function.
func (s *Scn) F(pkg, name string, args ...Val) Val {
	fn := s.C.Fn(pkg, name)
	r := s.Call(fn, s.variadic(fn, args)...)
	if len(r) == 0 {
		return nil
	}
	return r[0]
}

// M calls a method.
func (s *Scn) M(recv Val, pkg, typ, name string, args ...Val) []Val {
	fn := s.C.Method(pkg, typ, name)
	return s.Call(fn, s.variadic(fn, append([]Val{recv}, args...))...)
}

// variadic packs trailing arguments.
func (s *Scn) variadic(fn *ssa.Function, args []Val) []Val {
	sig := fn.Signature
	if !sig.Variadic() {
		return args
	}
	n := len(fn.Params) - 1
	if len(args) > n+1 || len(args) == n || len(args) == n+1 && !isSlice(args[n]) {
		st := sig.Params().At(sig.Params().Len() - 1).Type()
		rest := args[n:]
		if len(rest) == 0 {
			return append(append([]Val{}, args[:n]...), absint.MkNil(st))
		}
		return append(append([]Val{}, args[:n]...), s.P.MkSlice(st, "opts", rest...))
	}
	return args
}

func isSlice(v Val) bool {
	switch x := v.(type) {
	case absint.SliceV:
		return true
	case absint.Const:
		return x.V == nil
	}
	return false
}

// Msg is a message nothing is known about but its content term.
func (s *Scn) Msg(name string) Val {
	return s.P.NonNilSym(name, s.C.protoMessage())
}

func (c *Ctx) protoMessage() types.Type {
	return c.ExtType("google.golang.org/protobuf/reflect/protoreflect", "ProtoMessage")
}

// Content describes the content of a message.
func (s *Scn) Content(v Val) string {
	if v == nil {
		return "<none>"
	}
	v = s.P.Resolve(v)
	if absint.IsNilConst(v) {
		return "nil"
	}
	if iv, ok := v.(absint.IfaceV); ok && absint.IsNilConst(s.P.Resolve(iv.V)) {
		return "typed nil"
	}
	return s.P.MsgContent(v)
}

// Bool chooses one of the cases of an input.
func (s *Scn) Bool(name string) bool { return s.P.ChooseBool("in:" + name) }

// Pick chooses one of n cases of an input.
func (s *Scn) Pick(name string, n int) int { return s.P.Choose("in:"+name, n) }

// Native is a callback of the environment.
func (s *Scn) Native(name string, f func(args []Val) Val) *absint.FuncV {
	return &absint.FuncV{Name: name, Native: func(p *absint.Path, args []Val) Val { return f(args) }}
}

// Code describes an error: "OK", a code number, or the key of an opaque error.
func (s *Scn) Code(err Val) string {
	err = s.P.Resolve(err)
	if absint.IsNilConst(err) {
		return "OK"
	}
	if c := s.P.ErrCode(err); c != nil {
		if n, ok := absint.IntConst(c); ok {
			return codeName(n)
		}
		return absint.Key(c)
	}
	return absint.Key(err)
}

var codeNames = []string{"OK", "Canceled", "Unknown", "InvalidArgument", "DeadlineExceeded", "NotFound", "AlreadyExists", "PermissionDenied", "ResourceExhausted", "FailedPrecondition", "Aborted", "OutOfRange", "Unimplemented", "Internal", "Unavailable", "DataLoss", "Unauthenticated"}

func codeName(n int64) string {
	if n >= 0 && int(n) < len(codeNames) {
		return codeNames[n]
	}
	return fmt.Sprint(n)
}

// Ctx creates a context that's cancelled when the scenario ends.
func (s *Scn) Ctx(name string) Val {
	c := s.P.NewCtx(name)
	s.ctxs = append(s.ctxs, c)
	return c
}

// Background is a context that's never done.
func (s *Scn) Background() Val {
	return &absint.Sym{Key: "context.Background", T: s.C.E.ContextType(), Op: "context.Background", NonNil: true}
}

// Reader receives everything from a channel.
type Reader struct {
	s      *Scn
	Ch     Val
	Events []Val
	Closed bool
	T      *absint.Thread
	pause  bool
}

// Read starts receiving everything from ch.
func (s *Scn) Read(ch Val) *Reader {
	r := &Reader{s: s, Ch: ch}
	s.readers = append(s.readers, r)
	r.T = s.P.Spawn("reader", func() {
		for {
			v, ok := s.P.ChanRecv(ch)
			if !ok {
				r.Closed = true
				return
			}
			r.Events = append(r.Events, v)
		}
	})
	return r
}

// Go runs a call in its own thread.
func (s *Scn) Go(name string, f func()) *absint.Thread { return s.P.Spawn(name, f) }

// finish ends every subscription, then checks that nothing is left running.
func (s *Scn) finish() {
	s.P.Settle()
	for _, c := range s.ctxs {
		s.P.CancelCtx(c)
	}
	s.P.Settle()
	for _, t := range s.P.Live() {
		if strings.HasPrefix(t.Name, "env") || strings.Contains(t.Waiting(), "chan:neverticks") {
			continue
		}
		s.Fail("goroutine started by %s (%s) doesn't end: waiting for %s", t.StartedBy(), t.Name, stripIDs(t.Waiting()))
	}
}

func stripIDs(s string) string {
	var sb strings.Builder
	skip := false
	for _, r := range s {
		if r == '#' {
			skip = true
			continue
		}
		if skip && r >= '0' && r <= '9' {
			continue
		}
		skip = false
		sb.WriteRune(r)
	}
	return sb.String()
}

// Field reads a field of a struct, by name.
func (s *Scn) Field(v Val, name string) Val {
	c := s.P.Deref(v)
	sv, ok := c.Load0().(*absint.StructV)
	if !ok {
		s.P.Stuck("field %s of %T", name, c.Load0())
	}
	fc := sv.FieldByName(name)
	if fc == nil {
		panic(missing{"field " + name})
	}
	return s.P.Resolve(fc.Load())
}

// SetField sets a field.
func (s *Scn) SetField(v Val, name string, x Val) {
	sv := s.P.Deref(v).Load0().(*absint.StructV)
	fc := sv.FieldByName(name)
	if fc == nil {
		panic(missing{"field " + name})
	}
	fc.Set(s.P, x)
}

// NewMsg allocates a zero message (or any struct) with the given fields set.
func (s *Scn) NewMsg(t types.Type, label string, fields map[string]Val) absint.Ptr {
	pv := s.P.Alloc(t, label)
	for _, k := range sortedKeys(fields) {
		s.SetField(pv, k, fields[k])
	}
	return pv
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	for i := range r {
		for j := i; j > 0 && r[j] < r[j-1]; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
	return r
}

// Iface wraps a pointer into an interface value.
func Iface(v Val) Val {
	switch x := v.(type) {
	case absint.Ptr:
		return absint.IfaceV{T: x.T, V: x}
	case *absint.Sym:
		if x.T != nil {
			if _, ok := x.T.Underlying().(*types.Interface); !ok {
				return absint.IfaceV{T: x.T, V: x}
			}
		}
	case absint.Const:
		return absint.IfaceV{T: x.T, V: x}
	}
	return v
}

// Iface2 makes an interface value of a function.
func Iface2(t types.Type, v Val) Val { return absint.IfaceV{T: t, V: v} }
