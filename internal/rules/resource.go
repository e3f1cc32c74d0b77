package rules

import (
	"go/types"

	"scverify/internal/absint"
)

const (
	resPkg   = "pkg/resource"
	masksPkg = "pkg/masks"
	modPath  = "github.com/smart-core-os/sc-golang"
)

// fieldOfType finds the content of the first field of a struct with the named type.
func fieldOfType(p *absint.Path, v Val, typ string) Val {
	sv, ok := p.Deref(v).Load0().(*absint.StructV)
	if !ok {
		return nil
	}
	st, ok := sv.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if types.TypeString(st.Field(i).Type(), nil) == typ {
			return p.Resolve(sv.Field(i).Load())
		}
	}
	return nil
}

const fieldMaskT = "*google.golang.org/protobuf/types/known/fieldmaskpb.FieldMask"

// resHooks make the parts of package masks that have properties of their own opaque.
func resHooks(c *Ctx) map[string]func(c *absint.Call) (Val, bool) {
	h := map[string]func(c *absint.Call) (Val, bool){}
	m := modPath + "/pkg/masks"
	h["(*"+m+".FieldUpdater).Validate"] = func(c *absint.Call) (Val, bool) {
		p := c.P
		p.AddEvent(&absint.Event{Kind: "validate", Name: absint.DeepKey(c.Args[0]), Args: c.Args})
		if p.ChooseBool("in:valid " + absint.DeepKey(c.Args[0])) {
			return absint.MkNil(c.Sig.Results().At(0).Type()), true
		}
		return p.MkErr(absint.MkInt(3), absint.MkString("invalid mask")), true
	}
	h["(*"+m+".FieldUpdater).Merge"] = func(c *absint.Call) (Val, bool) {
		p := c.P
		p.AddEvent(&absint.Event{Kind: "mutate", Name: "masks.Merge", Args: c.Args[1:]})
		p.SetContent(c.Args[1], mergedTerm(p, c.Args[0], p.MsgContent(c.Args[1]), p.MsgContent(c.Args[2])))
		return absint.TupleV{}, true
	}
	h["google.golang.org/protobuf/types/known/fieldmaskpb.Union"] = func(c *absint.Call) (Val, bool) {
		return unionMasks(c.P, c.Args, c.Sig.Results().At(0).Type()), true
	}
	read := func(c *absint.Call) (Val, bool) {
		buf := c.Args[len(c.Args)-1]
		if sl, ok := c.P.SliceOf(buf); ok {
			for i := sl.Lo; i < sl.Hi; i++ {
				sl.Arr.Cells[i].Set(c.P, c.P.NewSym(c.P.Fresh("random"), types.Typ[types.Byte]))
			}
			return absint.TupleV{absint.MkInt(int64(sl.Hi - sl.Lo)), absint.MkNil(errType)}, true
		}
		return nil, false
	}
	h["iface:(io.Reader).Read"] = read
	h["(*math/rand.Rand).Read"] = read
	filter := func(c *absint.Call) (Val, bool) {
		p := c.P
		mask := fieldOfType(p, c.Args[0], fieldMaskT)
		msg := p.Resolve(c.Args[1])
		if mask == nil || absint.IsNilConst(mask) || p.IsNil(msg) {
			return msg, true
		}
		n := p.CloneMsg(msg)
		p.SetContent(n, projTerm(mask, p.MsgContent(msg)))
		return n, true
	}
	h["(*"+m+".ResponseFilter).FilterClone"] = filter
	h["(*"+m+".ResponseFilter).Filter"] = func(c *absint.Call) (Val, bool) {
		p := c.P
		mask := fieldOfType(p, c.Args[0], fieldMaskT)
		msg := p.Resolve(c.Args[1])
		if mask == nil || absint.IsNilConst(mask) || p.IsNil(msg) {
			return absint.TupleV{}, true
		}
		p.AddEvent(&absint.Event{Kind: "mutate", Name: "masks.Filter", Args: c.Args[1:]})
		p.SetContent(msg, projTerm(mask, p.MsgContent(msg)))
		return absint.TupleV{}, true
	}
	return h
}

func mergedTerm(p *absint.Path, updater Val, dst, src string) string {
	return "merged{" + absint.DeepKey(updater) + "}(" + dst + " <- " + src + ")"
}

func projTerm(mask Val, content string) string {
	if content == "nil" {
		return "nil"
	}
	return "proj{" + absint.DeepKey(mask) + "}(" + content + ")"
}

// timeKey identifies a time.Time.
func timeKey(v Val) string { return absint.Key(v) }

// mask is an opaque field mask.
func (s *Scn) Mask(name string) Val {
	return s.P.NonNilSym(name, types.NewPointer(s.C.ExtType("google.golang.org/protobuf/types/known/fieldmaskpb", "FieldMask")))
}

func (s *Scn) clock() Val {
	return s.P.NonNilSym("clock", s.C.Type(resPkg, "Clock"))
}

// wopts are the write options of a scenario, by what they are for.
type wopts struct {
	updateMask, resetMask, moreWritable Val
	expectedValue                       Val
	check                               bool
	before, after                       bool
	writeTime                           Val
	expectAbsent, createIfAbsent        bool
	createdCb, genID, idCb              bool
	allowMissing                        bool
	allWritable                         bool
}

type wlog struct {
	checks, befores, afters []string // contents of the arguments
	created, ids            []string
	idVals                  []Val
	checkErr                Val
	afterArgs               []Val
}

// build turns the options into values using the constructors of the package.
func (w *wopts) build(s *Scn, l *wlog, prefix string) []Val {
	var o []Val
	add := func(v Val) { o = append(o, v) }
	if w.updateMask != nil {
		add(s.F(resPkg, "WithUpdateMask", w.updateMask))
	}
	if w.resetMask != nil {
		add(s.F(resPkg, "WithResetMask", w.resetMask))
	}
	if w.moreWritable != nil {
		add(s.F(resPkg, "WithMoreWritableFields", w.moreWritable))
	}
	if w.allWritable {
		add(s.F(resPkg, "WithAllFieldsWritable"))
	}
	if w.expectedValue != nil {
		add(s.F(resPkg, "WithExpectedValue", w.expectedValue))
	}
	if w.check {
		add(s.F(resPkg, "WithExpectedCheck", s.Native(prefix+"check", func(args []Val) Val {
			c := s.Content(args[0])
			l.checks = append(l.checks, c)
			if s.P.ChooseBool("in:" + prefix + "check(" + c + ")") {
				return absint.MkNil(errType)
			}
			l.checkErr = s.P.MkErr(absint.MkInt(15), absint.MkString("check failed"))
			return l.checkErr
		})))
	}
	if w.before {
		add(s.F(resPkg, "InterceptBefore", s.Native(prefix+"before", func(args []Val) Val {
			o, n := s.Content(args[0]), s.Content(args[1])
			l.befores = append(l.befores, o+" ; "+n)
			s.P.SetContent(args[1], prefix+"before("+o+" ; "+n+")")
			return absint.TupleV{}
		})))
	}
	if w.after {
		add(s.F(resPkg, "InterceptAfter", s.Native(prefix+"after", func(args []Val) Val {
			o, n := s.Content(args[0]), s.Content(args[1])
			l.afters = append(l.afters, o+" ; "+n)
			l.afterArgs = args
			s.P.SetContent(args[1], prefix+"after("+o+" ; "+n+")")
			return absint.TupleV{}
		})))
	}
	if w.writeTime != nil {
		add(s.F(resPkg, "WithWriteTime", w.writeTime))
	}
	if w.expectAbsent {
		add(s.F(resPkg, "WithExpectAbsent"))
	}
	if w.createIfAbsent {
		add(s.F(resPkg, "WithCreateIfAbsent"))
	}
	if w.createdCb {
		add(s.F(resPkg, "WithCreatedCallback", s.Native(prefix+"created", func(args []Val) Val {
			l.created = append(l.created, "created")
			return absint.TupleV{}
		})))
	}
	if w.genID {
		add(s.F(resPkg, "WithGenIDIfAbsent"))
	}
	if w.idCb {
		add(s.F(resPkg, "WithIDCallback", s.Native(prefix+"idcb", func(args []Val) Val {
			l.ids = append(l.ids, absint.Key(s.P.Resolve(args[0])))
			l.idVals = append(l.idVals, args[0])
			return absint.TupleV{}
		})))
	}
	if w.allowMissing {
		add(s.F(resPkg, "WithAllowMissing", absint.MkBool(true)))
	}
	return o
}

var errType = types.Universe.Lookup("error").Type()

// updater describes the field updater that has to be used for a write.
func (w *wopts) updater(s *Scn, writable Val) Val {
	nilMask := absint.MkNil(types.NewPointer(s.C.ExtType("google.golang.org/protobuf/types/known/fieldmaskpb", "FieldMask")))
	or := func(v Val) Val {
		if v == nil {
			return nilMask
		}
		return v
	}
	var u Val
	s.P.Quiet(func() {
		opts := []Val{
			s.F(masksPkg, "WithUpdateMask", or(w.updateMask)),
			s.F(masksPkg, "WithResetMask", or(w.resetMask)),
		}
		if writable != nil && !w.allWritable {
			opts = append(opts, s.F(masksPkg, "WithWritableFields", or(writable)))
		}
		u = s.F(masksPkg, "NewFieldUpdater", opts...)
	})
	return u
}

// unionMasks is the union of masks, nil masks add nothing.
func unionMasks(p *absint.Path, args []Val, t types.Type) Val {
	keys := map[string]Val{}
	var add func(v Val)
	add = func(v Val) {
		v = p.Resolve(v)
		if sl, ok := v.(absint.SliceV); ok {
			for i := sl.Lo; i < sl.Hi; i++ {
				add(sl.Arr.Cells[i].Load())
			}
			return
		}
		if p.IsNil(v) {
			return
		}
		if s, ok := v.(*absint.Sym); ok && s.Op == "union" {
			for _, a := range s.Args {
				add(a)
			}
			return
		}
		keys[absint.DeepKey(v)] = v
	}
	for _, a := range args {
		add(a)
	}
	ks := sortedKeys(keys)
	if len(ks) == 1 {
		return keys[ks[0]]
	}
	key := "union("
	var as []Val
	for i, k := range ks {
		if i > 0 {
			key += ","
		}
		key += k
		as = append(as, keys[k])
	}
	return &absint.Sym{Key: key + ")", T: t, Op: "union", Args: as, NonNil: true}
}
