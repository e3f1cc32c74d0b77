package rules

import (
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"scverify/internal/absint"
	"scverify/internal/load"
)

// model is a type that's built on resources, with a constructor.
type model struct {
	pkg  string // relative to the module
	name string
	t    *types.Named
	ctor *ssa.Function
}

func (m *model) String() string { return m.pkg[strings.LastIndex(m.pkg, "/")+1:] + "." + m.name }

// models finds the models and memory devices of the trait packages: types with a constructor that (indirectly) have
// resources as fields.
func (c *Ctx) models() []*model {
	var r []*model
	for pp := range c.P.SSA {
		if !strings.HasPrefix(pp, load.Module+"/pkg/trait/") {
			continue
		}
		rel := strings.TrimPrefix(pp, load.Module+"/")
		sp := c.P.SSA[pp]
		for name, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := t.Type().(*types.Named)
			if !ok || !c.holdsResources(n, 0) {
				continue
			}
			if ctor := c.ctorOf(sp, n); ctor != nil {
				r = append(r, &model{rel, name, n, ctor})
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// ctorOf finds New<Type>.
func (c *Ctx) ctorOf(sp *ssa.Package, n *types.Named) *ssa.Function {
	f := sp.Func("New" + n.Obj().Name())
	if f == nil || f.Signature.Results().Len() == 0 {
		return nil
	}
	pt, ok := f.Signature.Results().At(0).Type().(*types.Pointer)
	if !ok || !types.Identical(pt.Elem(), n) {
		return nil
	}
	return f
}

// resourceField returns whether t is a pointer to a resource.
func (c *Ctx) resourceField(t types.Type) string {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != load.Module+"/"+resPkg {
		return ""
	}
	switch n.Obj().Name() {
	case "Value", "Collection":
		return n.Obj().Name()
	}
	return ""
}

func (c *Ctx) holdsResources(t types.Type, depth int) bool {
	if depth > 2 {
		return false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if c.resourceField(ft) != "" {
			return true
		}
	}
	return false
}

// newModel calls the constructor with an empty or minimal configuration.
func (s *Scn) newModel(m *model) Val { return s.newModelWith(m) }

// newModelWith adds options.
func (s *Scn) newModelWith(m *model, opts ...Val) Val {
	sig := m.ctor.Signature
	var args []Val
	for i := 0; i < sig.Params().Len(); i++ {
		pt := sig.Params().At(i).Type()
		if sig.Variadic() && i == sig.Params().Len()-1 {
			if el := pt.(*types.Slice).Elem(); types.TypeString(el, nil) == load.Module+"/"+resPkg+".Option" {
				args = append(args, s.P.MkSlice(pt, "opts", append([]Val{s.F(resPkg, "WithClock", s.clock())}, opts...)...))
				continue
			}
			args = append(args, absint.MkNil(pt))
			continue
		}
		args = append(args, s.zeroArg(m, pt, i))
	}
	return s.Call(m.ctor, args...)[0]
}

// zeroArg is an argument of a constructor.
func (s *Scn) zeroArg(m *model, t types.Type, i int) Val {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			return s.P.NonNilSym("arg", t)
		}
	}
	return s.P.Zero(t)
}

// resources finds the resources a model has, by field name.
func (s *Scn) resources(mv Val) (names []string, vals map[string]Val, kinds map[string]string) {
	sv, ok := s.P.Deref(mv).Load0().(*absint.StructV)
	vals, kinds = map[string]Val{}, map[string]string{}
	if !ok {
		return
	}
	st, ok := sv.T.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if k := s.C.resourceField(st.Field(i).Type()); k != "" {
			n := st.Field(i).Name()
			v := s.P.Resolve(sv.Field(i).Load())
			if absint.IsNilConst(v) {
				continue
			}
			names = append(names, n)
			vals[n], kinds[n] = v, k
		}
	}
	return
}

// methods lists the exported methods of a type, including promoted ones.
func (c *Ctx) methods(t *types.Named) []*ssa.Function {
	c.lockSSA.Lock()
	defer c.lockSSA.Unlock()
	var r []*ssa.Function
	ms := c.P.Prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if f := c.P.Prog.MethodValue(ms.At(i)); f != nil && ms.At(i).Obj().Exported() {
			r = append(r, f)
		}
	}
	return r
}

func isContext(t types.Type) bool { return types.TypeString(t, nil) == "context.Context" }

// isPull recognises methods that subscribe: the first parameter is a context, the result is a receive channel.
func isPull(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Results().Len() != 1 || sig.Params().Len() == 0 || !isContext(sig.Params().At(0).Type()) {
		return false
	}
	_, ok := sig.Results().At(0).Type().Underlying().(*types.Chan)
	return ok
}

// anyEquivalence replaces the equivalences resources are configured with by an unknown (but reflexive) one.
func anyEquivalence(cfg *absint.Config) *absint.Config {
	if cfg.Hooks == nil {
		cfg.Hooks = map[string]func(*absint.Call) (Val, bool){}
	}
	cfg.Hooks["("+load.Module+"/"+resPkg+".ComparerFunc).Compare"] = func(c *absint.Call) (Val, bool) {
		if f, ok := c.P.Resolve(c.Args[0]).(*absint.FuncV); ok && f.Native != nil {
			return nil, false
		}
		s := &Scn{P: c.P}
		return absint.MkBool(s.equivalent(s.Content(c.Args[1]), s.Content(c.Args[2]))), true
	}
	old := cfg.Hook
	cfg.Hook = func(c *absint.Call) (Val, bool) {
		if c.Fn != nil && c.Fn.Pkg != nil && c.Fn.Pkg.Pkg.Path() == load.Module+"/pkg/cmp" && c.Sig.Results().Len() == 1 && len(c.Args) >= 2 {
			n := len(c.Args)
			b, ok := c.Sig.Results().At(0).Type().Underlying().(*types.Basic)
			if ok && b.Info()&types.IsBoolean != 0 && c.Sig.Params().Len() == 2 && isMessage(c.Sig.Params().At(0).Type()) && isMessage(c.Sig.Params().At(1).Type()) {
				s := &Scn{P: c.P}
				return absint.MkBool(s.equivalent(s.Content(c.Args[n-2]), s.Content(c.Args[n-1]))), true
			}
		}
		if old != nil {
			return old(c)
		}
		return nil, false
	}
	return cfg
}

func isMessage(t types.Type) bool {
	switch types.TypeString(t, nil) {
	case "google.golang.org/protobuf/proto.Message", "google.golang.org/protobuf/reflect/protoreflect.ProtoMessage":
		return true
	}
	return false
}

// isMsgPtr is whether t is a pointer to a generated message.
func isMsgPtr(t types.Type) bool {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return isMsgPtrUncached(t)
	}
	// pointer types aren't unique, what they point to usually is
	if r, ok := msgPtrs.Load(pt.Elem()); ok {
		return r.(bool)
	}
	r := isMsgPtrUncached(t)
	msgPtrs.Store(pt.Elem(), r)
	return r
}

// msgPtrs remembers what's a pointer to a message.
var msgPtrs sync.Map

func isMsgPtrUncached(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	if _, ok := pt.Elem().Underlying().(*types.Struct); !ok {
		return false
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "ProtoReflect" {
			return true
		}
	}
	return false
}
