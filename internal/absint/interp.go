package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Val
	prev     *ssa.BasicBlock
	block    *ssa.BasicBlock
	cur      ssa.Instruction
	defers   []*FuncCall
	result   Val
	inDefers bool
	panicV   *targetPanic
	choiceN  map[ssa.Instruction]int
	visits   map[*ssa.BasicBlock]int
	recov    bool
}

// Outcome of a call.
type Outcome struct {
	Panic  bool
	Block  bool // never returns
	Reason string
	Pos    token.Pos
	Fn     *ssa.Function
	Ret    []Val
}

// TryCall calls fn, reporting panics in the outcome.
func (p *Path) TryCall(fn Val, args ...Val) (o Outcome) {
	held := len(p.stack)
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(targetPanic); ok {
				p.stack = p.stack[:held]
				o = Outcome{Panic: true, Reason: tp.reason, Pos: tp.pos, Fn: tp.fn}
				return
			}
			if b, ok := r.(Blocked); ok {
				p.stack = p.stack[:held]
				o = Outcome{Block: true, Reason: b.Desc}
				return
			}
			panic(r)
		}
	}()
	var r Val
	switch f := fn.(type) {
	case *FuncV:
		r = p.callFuncV(f, args, token.NoPos)
	default:
		r = p.callValue(fn, args, token.NoPos, nil)
	}
	return Outcome{Ret: unpack(r)}
}

// CallFn interprets fn.
func (p *Path) CallFn(fn *ssa.Function, args ...Val) Outcome {
	return p.TryCall(&FuncV{Fn: fn}, args...)
}

func unpack(r Val) []Val {
	if r == nil {
		return nil
	}
	if t, ok := r.(TupleV); ok {
		return t
	}
	return []Val{r}
}

func (p *Path) callFuncV(f *FuncV, args []Val, pos token.Pos) Val {
	if f.Native != nil {
		return f.Native(p, args)
	}
	return p.callFn(f.Fn, args, f.Bind, pos)
}

// CallValue calls a function value.
func (p *Path) CallValue(fn Val, args ...Val) Val { return p.callValue(fn, args, token.NoPos, nil) }

func (p *Path) callValue(fn Val, args []Val, pos token.Pos, sig *types.Signature) Val {
	fn = p.Resolve(fn)
	switch f := fn.(type) {
	case *FuncV:
		return p.callFuncV(f, args, pos)
	case *Sym:
		if sig == nil && f.T != nil {
			sig, _ = f.T.Underlying().(*types.Signature)
		}
		c := &Call{P: p, Name: "callback:" + f.Key, Recv: f, Args: args, Sig: sig, Pos: pos}
		if len(p.stack) > 0 {
			c.Caller = p.stack[len(p.stack)-1].fn
		}
		if v, ok := p.hook(c); ok {
			return v
		}
		return p.opaque("callback", "callback:"+f.Key, sig, args, pos, false)
	case Const:
		p.panicf("call of nil func")
	case IfaceV:
		return p.callValue(f.V, args, pos, sig)
	}
	p.Stuck("call of %T", fn)
	return nil
}

func (p *Path) hook(c *Call) (Val, bool) {
	if h, ok := p.Cfg.Hooks[c.Name]; ok {
		if v, ok := h(c); ok {
			return v, true
		}
	}
	if p.Cfg.Hook != nil {
		if v, ok := p.Cfg.Hook(c); ok {
			return v, true
		}
	}
	return nil, false
}

// FullName is the name of the function used for hooks, without type arguments.
func FullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Object() != nil {
		if f, ok := fn.Object().(*types.Func); ok {
			return f.FullName()
		}
	}
	return fn.String()
}

func pkgPath(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// InModule returns whether fn is part of the analysed module.
func (e *Engine) InModule(fn *ssa.Function) bool {
	pp := pkgPath(fn)
	if pp == e.Module || strings.HasPrefix(pp, e.Module+"/") {
		return true
	}
	if pp == "" && fn.Synthetic != "" {
		return true // wrappers, bound methods, thunks
	}
	return false
}

var inlinePkgs = map[string]bool{"container/list": true, "container/heap": true, "container/ring": true, "slices": true, "maps": true, "cmp": true, "iter": true,
	"golang.org/x/exp/maps": true, "golang.org/x/exp/slices": true}

func (p *Path) callFn(fn *ssa.Function, args []Val, bind []Val, pos token.Pos) Val {
	name := FullName(fn)
	c := &Call{P: p, Name: name, Fn: fn, Args: args, Sig: fn.Signature, Pos: pos}
	if len(p.stack) > 0 {
		c.Caller = p.stack[len(p.stack)-1].fn
	}
	if len(bind) == 0 {
		if v, ok := p.hook(c); ok {
			return v
		}
		if v, ok := p.intrinsic(c); ok {
			return v
		}
	}
	look := p.Eng.InModule(fn) || fn.Parent() != nil && p.Eng.InModule(fn) || inlinePkgs[pkgPath(fn)]
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && !strings.HasPrefix(fn.Synthetic, "package") {
		// wrappers and the like only forward
		if strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "bound") || strings.Contains(fn.Synthetic, "thunk") {
			look = true
		}
	}
	if !look && p.Cfg.Inline != nil && p.Cfg.Inline(fn) {
		look = true
	}
	if look && p.Cfg.NoInline != nil && p.Cfg.NoInline(fn) {
		look = false
	}
	if !look || len(fn.Blocks) == 0 {
		return p.opaque("call", name, fn.Signature, args, pos, pureFn(fn, name))
	}
	return p.interp(fn, args, bind)
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (p *Path) opaque(kind, name string, sig *types.Signature, args []Val, pos token.Pos, pure bool) Val {
	var res Val
	if sig != nil {
		if rt := resultType(sig); rt != nil {
			if pure {
				res = p.Term(name, rt, args...)
			} else {
				key := p.Fresh(name)
				res = p.symValue(key, rt, nil)
				p.setOp(res, name, args)
			}
		}
	}
	p.event(&Event{Kind: kind, Name: name, Args: args, Res: res, Pos: pos})
	return res
}

func (p *Path) setOp(v Val, op string, args []Val) {
	switch v := v.(type) {
	case *Sym:
		v.Op, v.Args = op, args
	case TupleV:
		for i := range v {
			if s, ok := v[i].(*Sym); ok {
				s.Op, s.Args = fmt.Sprintf("%s.%d", op, i), args
			}
		}
	}
}

func (p *Path) interp(fn *ssa.Function, args []Val, bind []Val) Val {
	if len(p.stack) > 80 {
		p.Stuck("call depth exceeded")
	}
	rec := 0
	for _, f := range p.stack {
		if f.fn == fn {
			rec++
		}
	}
	if rec > 8 {
		p.Cut("recursion")
	}
	if _, ok := p.Eng.Seen.Load(fn); !ok {
		p.Eng.Seen.Store(fn, true)
	}
	f := &frame{fn: fn, env: map[ssa.Value]Val{}, visits: map[*ssa.BasicBlock]int{}}
	if len(args) != len(fn.Params) {
		p.Stuck("%s called with %d args", fn, len(args))
	}
	for i, par := range fn.Params {
		f.env[par] = args[i]
	}
	for i, fv := range fn.FreeVars {
		if i >= len(bind) {
			p.Stuck("%s called without bindings", fn)
		}
		f.env[fv] = bind[i]
	}
	p.stack = append(p.stack, f)
	depth := len(p.stack)
	defer func() {
		if len(p.stack) >= depth {
			p.stack = p.stack[:depth-1]
		}
	}()
	res := p.run(f, fn.Blocks[0])
	return res
}

// run executes the frame, taking care of panics and deferred calls.
func (p *Path) run(f *frame, start *ssa.BasicBlock) (res Val) {
	depth := len(p.stack)
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			p.stack = p.stack[:depth]
			f.panicV = &tp
			p.runDefers(f)
			if f.panicV != nil {
				panic(*f.panicV)
			}
			// recovered
			f.recov = true
		}()
		p.blocks(f, start)
	}()
	if f.recov {
		if f.fn.Recover != nil {
			p.blocks(f, f.fn.Recover)
			return f.result
		}
		if rt := resultType(f.fn.Signature); rt != nil {
			return p.zero(rt, nil)
		}
		return nil
	}
	return f.result
}

func (p *Path) runDefers(f *frame) {
	was := f.inDefers
	f.inDefers = true
	defer func() { f.inDefers = was }()
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		func() {
			depth := len(p.stack)
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				p.stack = p.stack[:depth]
				f.panicV = &tp
			}()
			p.doCall(d.Call, d.Fn, d.Args, d.Pos)
		}()
	}
	if f.panicV != nil && !was {
		// keep unwinding
		return
	}
}

func (p *Path) blocks(f *frame, b *ssa.BasicBlock) {
	maxSteps := p.Cfg.MaxSteps
	if maxSteps == 0 {
		maxSteps = 200000
	}
	for {
		f.block = b
		f.visits[b]++
		if f.visits[b] > max(400, p.Cfg.MaxVisits) {
			p.Cut("loop bound in " + f.fn.String())
		}
		var next *ssa.BasicBlock
		// phis first, in parallel
		i := 0
		var phis []*ssa.Phi
		var vals []Val
		for ; i < len(b.Instrs); i++ {
			phi, ok := b.Instrs[i].(*ssa.Phi)
			if !ok {
				break
			}
			for j, pred := range b.Preds {
				if pred == f.prev {
					phis = append(phis, phi)
					vals = append(vals, p.get(f, phi.Edges[j]))
					break
				}
			}
		}
		for j, phi := range phis {
			f.env[phi] = vals[j]
		}
		for ; i < len(b.Instrs); i++ {
			p.steps++
			if p.steps > maxSteps {
				p.Stuck("step limit")
			}
			instr := b.Instrs[i]
			f.cur = instr
			switch instr := instr.(type) {
			case *ssa.If:
				if p.Truth(p.get(f, instr.Cond)) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(instr.Results) {
				case 0:
				case 1:
					f.result = p.get(f, instr.Results[0])
				default:
					t := make(TupleV, len(instr.Results))
					for k, r := range instr.Results {
						t[k] = p.get(f, r)
					}
					f.result = t
				}
				return
			case *ssa.Panic:
				v := p.get(f, instr.X)
				panic(targetPanic{v: v, reason: "panic(" + Key(v) + ")", pos: instr.Pos(), fn: f.fn})
			default:
				p.exec(f, instr)
			}
		}
		f.prev = b
		b = next
	}
}

func (p *Path) get(f *frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return p.zero(v.Type(), nil)
		}
		return Const{v.Type(), v.Value}
	case *ssa.Function:
		return &FuncV{Fn: v, T: v.Type()}
	case *ssa.Global:
		return Ptr{v.Type(), p.global(v)}
	case *ssa.Builtin:
		return &FuncV{Name: "builtin:" + v.Name()}
	}
	r, ok := f.env[v]
	if !ok {
		p.Stuck("no value for %s", v)
	}
	return r
}

// Global is a package variable.
func (p *Path) Global(g *ssa.Global) *Cell { return p.global(g) }

func (p *Path) global(g *ssa.Global) *Cell {
	if c, ok := p.globals[g]; ok {
		return c
	}
	et := g.Type().(*types.Pointer).Elem()
	c := p.newCell("global:"+g.String(), et)
	c.FromSym = "&global:" + g.String()
	p.globals[g] = c
	if g.Name() == "init$guard" {
		c.v = MkBool(false)
		return c
	}
	if !p.Cfg.SkipInit && g.Pkg != nil && p.Eng.moduleInit(g.Pkg) && !p.inited[g.Pkg] {
		p.inited[g.Pkg] = true
		if init := g.Pkg.Func("init"); init != nil && len(init.Blocks) > 0 {
			p.Quiet(func() {
				hc := *p.Cfg
				hc.Hooks, hc.Hook, hc.Oracle = nil, nil, nil
				old := p.Cfg
				p.Cfg = &hc
				defer func() { p.Cfg = old }()
				func() {
					depth := len(p.stack)
					held := p.fails
					defer func() {
						if r := recover(); r != nil {
							p.stack = p.stack[:depth]
							p.fails = held
							p.Data["initfailed:"+g.Pkg.Pkg.Path()] = true
							switch r.(type) {
							case targetPanic, Stuck, cutPath:
							default:
								panic(r)
							}
						}
					}()
					p.interp(init, nil, nil)
				}()
			})
		}
	}
	if c.v == nil && !p.Cfg.SkipInit && g.Pkg != nil && p.Eng.moduleInit(g.Pkg) && p.Data["initfailed:"+g.Pkg.Pkg.Path()] == nil {
		// not initialised, so it's zero
		c.lazy = func() Val { return p.zero(et, c) }
		return c
	}
	if c.v == nil {
		label := c.Label
		c.lazy = func() Val {
			v := p.symValue(label, et, c)
			if s, ok := v.(*Sym); ok {
				s.NonNil = true
				p.facts["nil:"+label] = 1
			}
			return v
		}
	}
	return c
}

func (e *Engine) moduleInit(pkg *ssa.Package) bool {
	pp := pkg.Pkg.Path()
	return pp == e.Module || strings.HasPrefix(pp, e.Module+"/")
}

func (p *Path) exec(f *frame, instr ssa.Instruction) {
	set := func(v ssa.Value, x Val) { f.env[v] = x }
	switch i := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := i.Type().(*types.Pointer).Elem()
		name := i.Comment
		if name == "" || name == "complit" || name == "new" || name == "varargs" || name == "slicelit" {
			name = "new " + types.TypeString(et, func(p *types.Package) string { return p.Name() })
		}
		set(i, p.Alloc(et, name))
	case *ssa.BinOp:
		set(i, p.binop(i.Op, p.get(f, i.X), p.get(f, i.Y), i.Type(), i.X.Type()))
	case *ssa.UnOp:
		set(i, p.unop(f, i))
	case *ssa.Call:
		fn, args := p.prepCall(f, &i.Call)
		r := p.doCall(&i.Call, fn, args, i.Pos())
		if r == nil {
			r = TupleV{}
		}
		set(i, r)
	case *ssa.Defer:
		fn, args := p.prepCall(f, &i.Call)
		f.defers = append(f.defers, &FuncCall{Fn: fn, Args: args, Pos: i.Pos(), By: f.fn, Call: &i.Call})
	case *ssa.Go:
		fn, args := p.prepCall(f, &i.Call)
		fc := &FuncCall{Fn: fn, Args: args, Pos: i.Pos(), By: f.fn, Call: &i.Call}
		p.Gos = append(p.Gos, fc)
		if p.Cfg.Threads {
			p.event(&Event{Kind: "go", Name: Key(fn), Args: append([]Val{fn}, args...), Pos: i.Pos()})
			call := &i.Call
			p.Spawn("go:"+f.fn.Name(), func() { p.doCall(call, fn, args, fc.Pos) })
			p.yield("go")
			return
		}
		p.event(&Event{Kind: "go", Name: Key(fn), Args: append([]Val{fn}, args...), Pos: i.Pos()})
	case *ssa.RunDefers:
		f.panicV = nil
		p.runDefers(f)
		if f.panicV != nil {
			panic(*f.panicV)
		}
	case *ssa.ChangeInterface:
		set(i, retype(p.get(f, i.X), i.Type()))
	case *ssa.ChangeType:
		set(i, retype(p.get(f, i.X), i.Type()))
	case *ssa.Convert:
		set(i, p.convert(p.get(f, i.X), i.Type()))
	case *ssa.MultiConvert:
		set(i, p.convert(p.get(f, i.X), i.Type()))
	case *ssa.MakeInterface:
		set(i, p.makeIface(p.get(f, i.X), i.X.Type(), i.Type()))
	case *ssa.Extract:
		t := p.get(f, i.Tuple)
		switch t := t.(type) {
		case TupleV:
			set(i, t[i.Index])
		default:
			set(i, p.symValue(fmt.Sprintf("%s.%d", Key(t), i.Index), i.Type(), nil))
		}
	case *ssa.Field:
		x := p.get(f, i.X)
		set(i, p.fieldOf(x, i.Field))
	case *ssa.FieldAddr:
		c := p.Deref(p.get(f, i.X))
		st := i.X.Type().Underlying().(*types.Pointer).Elem()
		sv := p.structOf(c, st)
		set(i, Ptr{i.Type(), sv.Field(i.Field)})
	case *ssa.Index:
		x, idx := p.get(f, i.X), p.Resolve(p.get(f, i.Index))
		switch xv := p.Resolve(x).(type) {
		case *StructV:
			n, ok := IntConst(idx)
			if !ok {
				p.Stuck("array index")
			}
			set(i, xv.Field(int(n)).Load())
		default:
			set(i, p.Term("index", i.Type(), x, idx))
		}
	case *ssa.IndexAddr:
		set(i, p.indexAddr(p.get(f, i.X), p.get(f, i.Index), i.Type()))
	case *ssa.Lookup:
		set(i, p.lookup(p.get(f, i.X), p.get(f, i.Index), i.CommaOk, i.Type()))
	case *ssa.MakeChan:
		p.nextID++
		set(i, ChanV{i.Type(), &ChanObj{ID: p.nextID, Label: p.Fresh("chan"), Buf: p.get(f, i.Size)}})
	case *ssa.MakeClosure:
		var b []Val
		for _, x := range i.Bindings {
			b = append(b, p.get(f, x))
		}
		set(i, &FuncV{Fn: i.Fn.(*ssa.Function), Bind: b, T: i.Type()})
	case *ssa.MakeMap:
		p.nextID++
		set(i, MapV{i.Type(), &MapObj{ID: p.nextID, Label: p.Fresh("map"), Fresh: true}})
	case *ssa.MakeSlice:
		set(i, p.makeSlice(i.Type(), p.get(f, i.Len), p.get(f, i.Cap)))
	case *ssa.MapUpdate:
		p.mapUpdate(p.get(f, i.Map), p.get(f, i.Key), p.get(f, i.Value), i.Pos())
	case *ssa.Next:
		set(i, p.next(f, i))
	case *ssa.Range:
		set(i, p.rangeOver(p.get(f, i.X), i.X.Type()))
	case *ssa.Select:
		set(i, p.selectStmt(f, i))
	case *ssa.Send:
		p.Send(p.get(f, i.Chan), p.get(f, i.X), i.Pos())
	case *ssa.Slice:
		set(i, p.slice(f, i))
	case *ssa.SliceToArrayPointer:
		p.Stuck("slice to array pointer")
	case *ssa.Store:
		addr := p.get(f, i.Addr)
		c := p.Deref(addr)
		v := p.get(f, i.Val)
		p.store(c, v, i.Pos())
	case *ssa.TypeAssert:
		set(i, p.typeAssert(p.get(f, i.X), i.AssertedType, i.CommaOk))
	default:
		p.Stuck("instruction %T", instr)
	}
}

func (p *Path) store(c *Cell, v Val, pos token.Pos) {
	p.access(c, true)
	c.Set(p, v)
	if p.Cfg.TrackStores {
		p.event(&Event{Kind: "store", Name: c.Label, Args: []Val{v}, Cell: c, Pos: pos})
	}
	if p.Cfg.OnStore != nil {
		p.Cfg.OnStore(p, c, v, pos)
	}
}

func retype(v Val, t types.Type) Val {
	switch v := v.(type) {
	case FloatV:
		return FloatV{t, v.F}
	case Const:
		return Const{t, v.V}
	case *Sym:
		if _, ok := t.Underlying().(*types.Interface); ok {
			return v
		}
		n := *v
		n.T = t
		return &n
	case Ptr:
		return Ptr{t, v.C}
	case SliceV:
		v.T = t
		return v
	case MapV:
		v.T = t
		return v
	case ChanV:
		v.T = t
		return v
	case *FuncV:
		n := *v
		n.T = t
		return &n
	case *StructV:
		n := v.copyTo(nil, v.Src)
		n.T = t
		return n
	}
	return v
}

func (p *Path) makeIface(v Val, from, to types.Type) Val {
	if s, ok := v.(*Sym); ok && s.T != nil {
		if _, isI := s.T.Underlying().(*types.Interface); isI {
			return s
		}
	}
	return IfaceV{from, v}
}

func (p *Path) structOf(c *Cell, st types.Type) *StructV {
	v := c.Load0()
	sv, ok := v.(*StructV)
	if !ok {
		if s, ok := v.(*Sym); ok {
			sv = &StructV{T: st, Base: s.Key, Src: s.Key, F: map[int]*Cell{}, p: p, home: c}
			c.v = sv
			return sv
		}
		p.Stuck("struct of %T", v)
	}
	if sv.T == nil {
		sv.T = st
	}
	return sv
}

func (p *Path) fieldOf(x Val, idx int) Val {
	switch x := x.(type) {
	case *StructV:
		return x.Field(idx).Load()
	case *Sym:
		st := x.T.Underlying().(*types.Struct)
		return p.symValue(x.Key+"."+st.Field(idx).Name(), st.Field(idx).Type(), nil)
	}
	p.Stuck("field of %T", x)
	return nil
}

func (p *Path) indexAddr(x, idx Val, t types.Type) Val {
	idx = p.Resolve(idx)
	switch xv := p.Resolve(x).(type) {
	case Ptr: // pointer to array
		sv := p.structOf(xv.C, xv.T.Underlying().(*types.Pointer).Elem())
		n := p.concreteIndex(idx, sv.numFields())
		return Ptr{t, sv.Field(n)}
	default:
		s, ok := p.SliceOf(x)
		if !ok {
			p.Stuck("index of %T", xv)
		}
		n := p.concreteIndex(idx, s.Hi-s.Lo)
		return Ptr{t, s.Arr.Cells[s.Lo+n]}
	}
}

// concreteIndex decides which of n elements idx is.
func (p *Path) concreteIndex(idx Val, n int) int {
	idx = p.Resolve(idx)
	if i, ok := IntConst(idx); ok {
		if i < 0 || i >= int64(n) {
			p.panicf("index %d out of range of %d", i, n)
		}
		return int(i)
	}
	if p.test(idx, MkInt(0), relLT) {
		p.panicf("index %s negative", Key(idx))
	}
	for i := 0; i < n; i++ {
		if p.Equal(idx, MkInt(int64(i))) {
			return i
		}
	}
	p.panicf("index %s out of range of %d", Key(idx), n)
	return 0
}

func (p *Path) convert(v Val, t types.Type) Val {
	v = p.Resolve(v)
	if c, ok := v.(Const); ok && c.V != nil {
		b, ok := t.Underlying().(*types.Basic)
		if ok {
			switch {
			case b.Info()&types.IsInteger != 0 && c.V.Kind() != constant.String:
				x := constant.ToInt(c.V)
				if x.Kind() != constant.Int {
					// truncate
					fl, _ := constant.Float64Val(c.V)
					x = constant.MakeInt64(int64(fl))
				}
				return Const{t, wrapInt(x, b)}
			case b.Info()&types.IsFloat != 0 && c.V.Kind() != constant.String:
				f, _ := constant.Float64Val(c.V)
				return MkFloat(t, f)
			case b.Info()&types.IsString != 0 && c.V.Kind() == constant.String:
				return Const{t, c.V}
			}
		}
		return p.Term("convert:"+t.String(), t, v)
	}
	if fv, ok := v.(FloatV); ok {
		b, ok := t.Underlying().(*types.Basic)
		switch {
		case ok && b.Info()&types.IsFloat != 0:
			return MkFloat(t, fv.F)
		case ok && b.Info()&types.IsInteger != 0 && fv.F == 0:
			return Const{t, constant.MakeInt64(0)}
		case ok && b.Info()&types.IsInteger != 0:
			return Const{t, wrapInt(constant.MakeInt64(math.MinInt64), b)} // what amd64 does
		}
	}
	if sl, ok := v.(SliceV); ok {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			// []rune or []byte of constants
			str, known := "", true
			et, _ := sl.T.Underlying().(*types.Slice)
			for i := sl.Lo; i < sl.Hi && known; i++ {
				n, ok := IntConst(p.Resolve(sl.Arr.Cells[i].Load()))
				known = ok
				if et != nil && types.Identical(et.Elem().Underlying(), types.Typ[types.Byte]) {
					str += string([]byte{byte(n)})
				} else {
					str += string(rune(n))
				}
			}
			if known {
				return Const{t, constant.MakeString(str)}
			}
		}
	}
	if s, ok := v.(*Sym); ok {
		// widening of ints and the like keeps the value
		fb, ok1 := under(s.T).(*types.Basic)
		tb, ok2 := t.Underlying().(*types.Basic)
		if ok1 && ok2 && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 && basicSize(tb) >= basicSize(fb) && (fb.Info()&types.IsUnsigned == tb.Info()&types.IsUnsigned) {
				n := *s
				n.T = t
				return &n
			}
			if fb.Kind() == tb.Kind() {
				n := *s
				n.T = t
				return &n
			}
			return p.Term("convert:"+tb.Name(), t, v)
		}
		if ok1 && ok2 && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			n := *s
			n.T = t
			return &n
		}
	}
	return p.Term("convert:"+t.String(), t, v)
}

func basicSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32, types.Float32:
		return 4
	}
	return 8
}

func wrapInt(x constant.Value, b *types.Basic) constant.Value {
	var bits uint
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
		bits = 64
	default:
		return x
	}
	one := constant.MakeInt64(1)
	mod := constant.Shift(one, token.SHL, bits)
	r := constant.BinaryOp(x, token.REM, mod)
	if constant.Sign(r) < 0 {
		r = constant.BinaryOp(r, token.ADD, mod)
	}
	if b.Info()&types.IsUnsigned == 0 {
		half := constant.Shift(one, token.SHL, bits-1)
		if constant.Compare(r, token.GEQ, half) {
			r = constant.BinaryOp(r, token.SUB, mod)
		}
	}
	return r
}

func (p *Path) binop(op token.Token, x, y Val, t, operand types.Type) Val {
	x, y = p.Resolve(x), p.Resolve(y)
	if v, ok := floatOp(op, x, y, t, operand); ok {
		return v
	}
	switch op {
	case token.EQL:
		return MkBool(p.Equal(x, y))
	case token.NEQ:
		return MkBool(!p.Equal(x, y))
	}
	cx, xok := x.(Const)
	cy, yok := y.(Const)
	if xok && yok && cx.V != nil && cy.V != nil {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return Const{t, constant.MakeBool(constant.Compare(cx.V, op, cy.V))}
		case token.SHL, token.SHR:
			n, _ := constant.Uint64Val(cy.V)
			v := constant.Shift(cx.V, op, uint(n))
			if b, ok := t.Underlying().(*types.Basic); ok {
				v = wrapInt(v, b)
			}
			return Const{t, v}
		case token.QUO:
			if constant.Sign(cy.V) == 0 {
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					p.panicf("divide by zero")
				}
				return p.Term("/", t, x, y)
			}
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return Const{t, wrapInt(constant.BinaryOp(cx.V, token.QUO_ASSIGN, cy.V), b)}
			}
			return Const{t, constant.BinaryOp(cx.V, op, cy.V)}
		case token.REM:
			if constant.Sign(cy.V) == 0 {
				p.panicf("divide by zero")
			}
			return Const{t, constant.BinaryOp(cx.V, op, cy.V)}
		default:
			v := constant.BinaryOp(cx.V, op, cy.V)
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				v = wrapInt(v, b)
			}
			return Const{t, v}
		}
	}
	switch op {
	case token.LSS:
		return MkBool(p.test(x, y, relLT))
	case token.LEQ:
		return MkBool(p.test(x, y, relLT|relEQ))
	case token.GTR:
		return MkBool(p.test(x, y, relGT))
	case token.GEQ:
		return MkBool(p.test(x, y, relGT|relEQ))
	}
	isZero := func(c Const, ok bool) bool {
		return ok && c.V != nil && (c.V.Kind() == constant.Int || c.V.Kind() == constant.Float) && constant.Sign(c.V) == 0
	}
	isEmpty := func(c Const, ok bool) bool {
		return ok && c.V != nil && c.V.Kind() == constant.String && constant.StringVal(c.V) == ""
	}
	switch op {
	case token.ADD:
		if isZero(cx, xok) || isEmpty(cx, xok) {
			return y
		}
		if isZero(cy, yok) || isEmpty(cy, yok) {
			return x
		}
		b, _ := t.Underlying().(*types.Basic)
		if b != nil && b.Info()&types.IsNumeric != 0 {
			// commutative, and fold constants: (x+c1)+c2
			if s, ok := x.(*Sym); ok && yok {
				if s.Op == "+" {
					if c1, ok := s.Args[1].(Const); ok {
						return p.binop(token.ADD, s.Args[0], p.binop(token.ADD, c1, cy, t, t), t, t)
					}
				}
				if s.Op == "-" {
					if c1, ok := s.Args[1].(Const); ok {
						return p.binop(token.ADD, s.Args[0], p.binop(token.SUB, cy, c1, t, t), t, t)
					}
				}
			}
			if xok {
				x, y = y, x
			} else if !yok && Key(x) > Key(y) {
				x, y = y, x
			}
		}
		return p.Term("+", t, x, y)
	case token.SUB:
		if isZero(cy, yok) {
			return x
		}
		if Key(x) == Key(y) {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return Const{t, constant.MakeInt64(0)}
			}
		}
		if yok {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				neg := constant.UnaryOp(token.SUB, cy.V, 0)
				return p.binop(token.ADD, x, Const{t, neg}, t, t)
			}
		}
		return p.Term("-", t, x, y)
	case token.MUL:
		if xok && !yok || !xok && !yok && Key(x) > Key(y) {
			x, y = y, x
		}
		return p.Term("*", t, x, y)
	case token.REM, token.QUO:
		if isZero(cy, yok) {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				p.panicf("divide by zero")
			}
		}
	}
	return p.Term(op.String(), t, x, y)
}

func (p *Path) unop(f *frame, i *ssa.UnOp) Val {
	x := p.get(f, i.X)
	switch i.Op {
	case token.MUL:
		if g, ok := i.X.(*ssa.Global); ok {
			c := p.global(g)
			p.access(c, false)
			return c.Load()
		}
		c := p.Deref(x)
		p.access(c, false)
		if sv, ok := c.Load0().(*StructV); ok && sv.T == nil {
			sv.T = i.Type()
		}
		return c.Load()
	case token.ARROW:
		return p.Recv(x, i.CommaOk, i.Type(), i.Pos())
	case token.NOT:
		x = p.Resolve(x)
		if b, ok := BoolConst(x); ok {
			return Const{i.Type(), constant.MakeBool(!b)}
		}
		return p.Term("!", i.Type(), x)
	case token.SUB:
		x = p.Resolve(x)
		if f, ok := FloatOf(x); ok && isFloat(i.Type()) {
			return MkFloat(i.Type(), -f)
		}
		if c, ok := x.(Const); ok && c.V != nil {
			v := constant.UnaryOp(token.SUB, c.V, 0)
			if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				v = wrapInt(v, b)
			}
			return Const{i.Type(), v}
		}
		return p.Term("neg", i.Type(), x)
	case token.XOR:
		x = p.Resolve(x)
		if c, ok := x.(Const); ok && c.V != nil {
			return Const{i.Type(), constant.UnaryOp(token.XOR, c.V, 0)}
		}
		return p.Term("^", i.Type(), x)
	}
	p.Stuck("unop %s", i.Op)
	return nil
}

func (p *Path) lookup(x, key Val, commaOk bool, t types.Type) Val {
	x = p.Resolve(x)
	if s, ok := x.(*Sym); ok {
		if b, ok := under(s.T).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return p.Term("index", t, x, key)
		}
	}
	if c, ok := x.(Const); ok && c.V != nil && c.V.Kind() == constant.String {
		if n, ok := IntConst(p.Resolve(key)); ok {
			s := constant.StringVal(c.V)
			if n < 0 || n >= int64(len(s)) {
				p.panicf("index out of range")
			}
			return Const{t, constant.MakeInt64(int64(s[n]))}
		}
		return p.Term("index", t, x, key)
	}
	vt := t
	if commaOk {
		vt = t.(*types.Tuple).At(0).Type()
	}
	e := p.MapGet(x, key, vt)
	p.event(&Event{Kind: "mapget", Name: Key(x), Args: []Val{key}})
	var v Val
	ok := e != nil && e.Present
	if ok {
		v = e.Cell.Load()
	} else {
		v = p.zero(vt, nil)
	}
	if commaOk {
		return TupleV{v, MkBool(ok)}
	}
	return v
}

// MapGet looks for key in a map, deciding whether it is there if that isn't known.
func (p *Path) MapGet(m, key Val, vt types.Type) *MapEntry {
	m = p.Resolve(m)
	if IsNilConst(m) {
		return nil
	}
	if s, ok := m.(*Sym); ok {
		if _, known := p.facts["nil:"+s.Key]; !known && p.maps[s.Key] == nil {
			// reading a nil map is like reading an empty one
		}
	}
	mo := p.MapOf(m)
	if mo == nil {
		p.Stuck("map lookup in %T", m)
	}
	p.accessMap(mo, false)
	key = p.Resolve(key)
	for _, e := range mo.Entries {
		if p.Equal(e.Key, key) {
			return e
		}
	}
	if mo.Base == "" {
		return nil
	}
	present := p.ChooseBool("has:" + mo.Base + "[" + Key(key) + "]")
	e := &MapEntry{Key: key, Present: present}
	if present {
		label := fmt.Sprintf("%s[%s]", mo.Base, Key(key))
		c := p.newCell(label, vt)
		c.lazy = func() Val {
			return p.symValue(label, vt, c)
		}
		e.Cell = c
	}
	mo.Entries = append(mo.Entries, e)
	return e
}

func (p *Path) mapUpdate(m, key, v Val, pos token.Pos) {
	m = p.Resolve(m)
	if IsNilConst(m) {
		p.panicf("assignment to entry in nil map")
	}
	if s, ok := m.(*Sym); ok {
		if f, ok := p.facts["nil:"+s.Key]; ok && f == 0 {
			p.panicf("assignment to entry in nil map")
		}
	}
	mo := p.MapOf(m)
	p.accessMap(mo, true)
	p.event(&Event{Kind: "mapset", Name: mo.Label, Args: []Val{key, v}, Pos: pos, Extra: fmt.Sprint("fresh=", mo.Fresh)})
	key = p.Resolve(key)
	var ent *MapEntry
	for _, e := range mo.Entries {
		if p.Equal(e.Key, key) {
			ent = e
			break
		}
	}
	if ent == nil {
		ent = &MapEntry{Key: key}
		mo.Entries = append(mo.Entries, ent)
	}
	ent.Present = true
	c := p.newCell(fmt.Sprintf("%s[%s]", mo.Label, Key(key)), nil)
	c.Fresh = mo.Fresh
	c.Set(p, v)
	ent.Cell = c
}

func (p *Path) mapDelete(m, key Val, pos token.Pos) {
	m = p.Resolve(m)
	if IsNilConst(m) {
		return
	}
	mo := p.MapOf(m)
	p.accessMap(mo, true)
	p.event(&Event{Kind: "mapdel", Name: mo.Label, Args: []Val{key}, Pos: pos})
	key = p.Resolve(key)
	for _, e := range mo.Entries {
		if p.Equal(e.Key, key) {
			e.Present = false
			e.Cell = nil
			return
		}
	}
	mo.Entries = append(mo.Entries, &MapEntry{Key: key})
}

type iter struct {
	m     *MapObj
	i     int
	str   string
	isStr bool
	mt    *types.Map
	snap  []*MapEntry
	sym   Val
}

func (p *Path) rangeOver(x Val, t types.Type) Val {
	x = p.Resolve(x)
	if mt, ok := t.Underlying().(*types.Map); ok {
		p.event(&Event{Kind: "maprange", Name: Key(x), Args: []Val{x}})
		if IsNilConst(x) {
			return &iter{mt: mt, m: &MapObj{}}
		}
		mo := p.MapOf(x)
		if mo.Base != "" && !mo.ranged {
			mo.ranged = true
			max := p.Cfg.MaxLen
			if max == 0 {
				max = 2
			}
			n := p.Choose("entries:"+mo.Base, max+1)
			for i := 0; i < n; i++ {
				k := p.symValue(fmt.Sprintf("%s.key%d", mo.Base, i), mt.Key(), nil)
				dup := false
				for _, e := range mo.Entries {
					if p.Equal(e.Key, k) {
						dup = true
					}
				}
				if dup {
					panic(infeasible{})
				}
				label := fmt.Sprintf("%s[%s]", mo.Base, Key(k))
				c := p.newCell(label, mt.Elem())
				cc := c
				c.lazy = func() Val { return p.symValue(label, mt.Elem(), cc) }
				mo.Entries = append(mo.Entries, &MapEntry{Key: k, Present: true, Cell: c})
				mo.symKeys = append(mo.symKeys, k)
			}
			mo.Base = "" // everything is known now
		}
		p.accessMap(mo, false)
		it := &iter{m: mo, mt: mt}
		it.snap = append(it.snap, mo.Entries...)
		return it
	}
	if s, ok := StringConst(x); ok {
		return &iter{str: s, isStr: true}
	}
	return &iter{sym: x, isStr: true}
}

func (p *Path) next(f *frame, i *ssa.Next) Val {
	it, ok := f.env[i.Iter].(*iter)
	if !ok {
		p.Stuck("range iterator")
	}
	if it.isStr {
		if it.sym != nil {
			p.Stuck("range over unknown string")
		}
		for idx, r := range it.str {
			if idx >= it.i {
				it.i = idx + len(string(r))
				return TupleV{MkBool(true), MkInt(int64(idx)), Const{types.Typ[types.Rune], constant.MakeInt64(int64(r))}}
			}
		}
		return TupleV{MkBool(false), MkInt(0), Const{types.Typ[types.Rune], constant.MakeInt64(0)}}
	}
	for it.i < len(it.snap) {
		e := it.snap[it.i]
		it.i++
		if !e.Present {
			continue
		}
		return TupleV{MkBool(true), e.Key, e.Cell.Load()}
	}
	return TupleV{MkBool(false), p.zero(it.mt.Key(), nil), p.zero(it.mt.Elem(), nil)}
}

// Send sends on a channel.
func (p *Path) Send(ch, v Val, pos token.Pos) {
	ch = p.Resolve(ch)
	if p.Cfg.Threads {
		p.sendThreaded(ch, v, pos)
		return
	}
	if IsNilConst(ch) {
		p.event(&Event{Kind: "block", Name: "send on nil channel", Pos: pos})
		p.Cut("blocks forever")
	}
	p.event(&Event{Kind: "send", Name: Key(ch), Args: []Val{v}, Pos: pos})
	if c, ok := ch.(ChanV); ok {
		if c.C.Closed {
			p.panicf("send on closed channel")
		}
		c.C.Queue = append(c.C.Queue, v)
	}
}

func threadable(ch Val) bool {
	switch c := ch.(type) {
	case ChanV:
		return true
	case *Sym:
		return c.Op == "done" || c.Op == "timer"
	case Const:
		return true
	}
	return false
}

// Recv receives from a channel.
func (p *Path) Recv(ch Val, commaOk bool, t types.Type, pos token.Pos) Val {
	ch = p.Resolve(ch)
	vt := t
	if commaOk {
		vt = t.(*types.Tuple).At(0).Type()
	}
	v, ok := p.recv(ch, vt, commaOk)
	p.event(&Event{Kind: "recv", Name: Key(ch), Res: v, Pos: pos})
	if commaOk {
		return TupleV{v, MkBool(ok)}
	}
	return v
}

func (p *Path) recv(ch Val, vt types.Type, commaOk bool) (Val, bool) {
	if p.Cfg.Threads && threadable(ch) {
		return p.recvThreaded(ch, vt)
	}
	if c, ok := ch.(ChanV); ok {
		if len(c.C.Queue) > 0 {
			v := c.C.Queue[0]
			c.C.Queue = c.C.Queue[1:]
			return v, true
		}
		if c.C.Closed {
			return p.zero(vt, nil), false
		}
	}
	if IsNilConst(ch) {
		p.Cut("receive from nil channel")
	}
	if s, ok := ch.(*Sym); ok && strings.HasPrefix(s.Op, "done") {
		return p.zero(vt, nil), false // done channels are only ever closed
	}
	key := p.Fresh("recv(" + Key(ch) + ")")
	if commaOk {
		if !p.ChooseBool("open:" + key) {
			return p.zero(vt, nil), false
		}
	}
	if q, ok := p.Data["recv:"+Key(ch)]; ok {
		return q.(func() Val)(), true
	}
	return p.symValue(key, vt, nil), true
}

func (p *Path) selectStmt(f *frame, i *ssa.Select) Val {
	n := len(i.States)
	total := n
	if !i.Blocking {
		total++
	}
	type st struct {
		ch, v Val
		dir   types.ChanDir
	}
	states := make([]st, n)
	var args []Val
	var desc []string
	var possible []int
	for k, s := range i.States {
		states[k].ch = p.Resolve(p.get(f, s.Chan))
		states[k].dir = s.Dir
		if s.Dir == types.SendOnly {
			states[k].v = p.get(f, s.Send)
			desc = append(desc, "send:"+Key(states[k].ch))
		} else {
			desc = append(desc, "recv:"+Key(states[k].ch))
		}
		args = append(args, states[k].ch)
		if !IsNilConst(states[k].ch) {
			possible = append(possible, k)
		}
	}
	if !i.Blocking {
		possible = append(possible, n)
	}
	if p.Cfg.Threads {
		env := -1
		cases := make([]waitCase, n)
		for k, s := range i.States {
			cases[k] = waitCase{send: s.Dir == types.SendOnly, ch: states[k].ch, v: states[k].v, t: s.Chan.Type().Underlying().(*types.Chan).Elem()}
			if !threadable(states[k].ch) {
				env = k
			}
		}
		if env >= 0 {
			// channels of the environment are always ready
			p.Stuck("select on %s", desc[env])
		}
		idx, v, ok := p.rendezvous(cases, i.Blocking, "select")
		ev := p.event(&Event{Kind: "select", Name: strings.Join(desc, "|"), Args: args, Pos: i.Pos()})
		ev.Extra = fmt.Sprint(idx)
		out := TupleV{MkInt(int64(idx)), MkBool(ok && idx >= 0 && !cases[max(idx, 0)].send)}
		for k, s := range i.States {
			if s.Dir == types.SendOnly {
				if k == idx {
					p.event(&Event{Kind: "send", Name: Key(states[k].ch), Args: []Val{states[k].v}, Pos: i.Pos(), Extra: "select"})
				}
				continue
			}
			if k == idx {
				out = append(out, v)
				p.event(&Event{Kind: "recv", Name: Key(states[k].ch), Res: v, Pos: i.Pos(), Extra: "select"})
			} else {
				out = append(out, p.zero(cases[k].t, nil))
			}
		}
		return out
	}
	if len(possible) == 0 {
		p.Cut("select blocks forever")
	}
	idx := possible[0]
	if len(possible) > 1 {
		idx = possible[p.Choose(p.Fresh("select("+strings.Join(desc, "|")+")"), len(possible))]
	}
	ev := p.event(&Event{Kind: "select", Name: strings.Join(desc, "|"), Args: args, Pos: i.Pos(), Extra: fmt.Sprint(idx)})
	ev.Extra = fmt.Sprint(idx)
	recvOk := MkBool(false)
	var recvs []Val
	for k, s := range i.States {
		if s.Dir == types.SendOnly {
			if k == idx {
				if c, ok := states[k].ch.(ChanV); ok {
					if c.C.Closed {
						p.panicf("send on closed channel")
					}
					c.C.Queue = append(c.C.Queue, states[k].v)
				}
				p.event(&Event{Kind: "send", Name: Key(states[k].ch), Args: []Val{states[k].v}, Pos: i.Pos(), Extra: "select"})
			}
			continue
		}
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		if k != idx {
			recvs = append(recvs, p.zero(et, nil))
			continue
		}
		v, ok := p.recv(states[k].ch, et, true)
		p.event(&Event{Kind: "recv", Name: Key(states[k].ch), Res: v, Pos: i.Pos(), Extra: "select"})
		recvOk = MkBool(ok)
		recvs = append(recvs, v)
	}
	out := TupleV{MkInt(int64(idx)), recvOk}
	if idx == n {
		out[0] = MkInt(-1)
	}
	return append(out, recvs...)
}

func (p *Path) makeSlice(t types.Type, l, c Val) Val {
	n, ok := IntConst(p.Resolve(l))
	if !ok {
		if s, ok := p.Resolve(l).(*Sym); ok {
			return &Sym{Key: p.Fresh("make"), T: t, Op: "make", Args: []Val{s}, NonNil: true}
		}
		p.Stuck("make slice with unknown length")
	}
	if n < 0 {
		p.panicf("makeslice: len out of range")
	}
	if n > 4096 {
		return &Sym{Key: p.Fresh("make"), T: t, Op: "make", Args: []Val{l}, NonNil: true}
	}
	et := t.Underlying().(*types.Slice).Elem()
	arr := &ArrObj{Label: p.Fresh("make"), Fresh: true}
	for i := int64(0); i < n; i++ {
		cc := p.newCell(fmt.Sprintf("%s[%d]", arr.Label, i), et)
		cc.Fresh = true
		cc.v = p.zero(et, cc)
		arr.Cells = append(arr.Cells, cc)
	}
	capn := -1
	if cv, ok := IntConst(p.Resolve(c)); ok {
		capn = int(cv)
		if cv < n {
			p.panicf("makeslice: cap out of range")
		}
	}
	return SliceV{T: t, Arr: arr, Lo: 0, Hi: int(n), Cap: capn}
}

func (p *Path) slice(f *frame, i *ssa.Slice) Val {
	x := p.Resolve(p.get(f, i.X))
	var lo, hi Val
	if i.Low != nil {
		lo = p.Resolve(p.get(f, i.Low))
	}
	if i.High != nil {
		hi = p.Resolve(p.get(f, i.High))
	}
	if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if s, ok := StringConst(x); ok {
			l, h := int64(0), int64(len(s))
			lok, hok := true, true
			if lo != nil {
				l, lok = IntConst(lo)
			}
			if hi != nil {
				h, hok = IntConst(hi)
			}
			if lok && hok {
				if l < 0 || h > int64(len(s)) || l > h {
					p.panicf("slice bounds out of range")
				}
				return Const{i.Type(), constant.MakeString(s[l:h])}
			}
		}
		return p.Term("slice", i.Type(), x, lo, hi)
	}
	var s SliceV
	switch xv := x.(type) {
	case Ptr: // array
		sv := p.structOf(xv.C, xv.T.Underlying().(*types.Pointer).Elem())
		arr := &ArrObj{Label: xv.C.Label, Fresh: xv.C.Fresh}
		for k := 0; k < sv.numFields(); k++ {
			arr.Cells = append(arr.Cells, sv.Field(k))
		}
		s = SliceV{T: i.Type(), Arr: arr, Hi: len(arr.Cells), Cap: len(arr.Cells)}
	default:
		var ok bool
		s, ok = p.SliceOf(x)
		if !ok {
			p.Stuck("slice of %T", x)
		}
	}
	n := s.Hi - s.Lo
	l, h := 0, n
	idx := func(v Val) int {
		if k, ok := IntConst(v); ok {
			return int(k)
		}
		if p.test(v, MkInt(0), relLT) {
			p.panicf("slice bound %s negative", Key(v))
		}
		for k := 0; k <= n; k++ {
			if p.Equal(v, MkInt(int64(k))) {
				return k
			}
		}
		return n + 1
	}
	if lo != nil {
		l = idx(lo)
	}
	if hi != nil {
		h = idx(hi)
	}
	if l < 0 || h < l {
		p.panicf("slice bounds out of range [%d:%d]", l, h)
	}
	if h > n && (s.Cap < 0 || h > s.Cap) {
		p.panicf("slice bounds out of range [:%d] with length %d", h, n)
	}
	for s.Lo+h > len(s.Arr.Cells) {
		et := i.Type().Underlying().(*types.Slice).Elem()
		cc := p.newCell(fmt.Sprintf("%s[%d]", s.Arr.Label, len(s.Arr.Cells)), et)
		cc.v = p.zero(et, cc)
		s.Arr.Cells = append(s.Arr.Cells, cc)
	}
	c := s.Cap
	if c >= 0 {
		c -= l
	}
	if i.Max != nil {
		if m, ok := IntConst(p.Resolve(p.get(f, i.Max))); ok {
			c = int(m) - l
		}
	}
	if IsNilConst(x) {
		return Const{i.Type(), nil}
	}
	return SliceV{T: i.Type(), Arr: s.Arr, Lo: s.Lo + l, Hi: s.Lo + h, Cap: c}
}

func (p *Path) typeAssert(x Val, t types.Type, commaOk bool) Val {
	x = p.Resolve(x)
	_, toIface := t.Underlying().(*types.Interface)
	ret := func(v Val, ok bool) Val {
		if commaOk {
			if !ok {
				v = p.zero(t, nil)
			}
			return TupleV{v, MkBool(ok)}
		}
		if !ok {
			p.panicf("interface conversion: %s is not %s", Key(x), t)
		}
		return v
	}
	switch v := x.(type) {
	case Const:
		if v.V == nil {
			return ret(nil, false)
		}
		p.Stuck("type assert of const %s", v)
	case IfaceV:
		if v.T == nil {
			if toIface {
				return ret(v, true)
			}
			// dynamic type not known, refine
			if commaOk {
				if !p.isa(Key(v.V), t) {
					return ret(nil, false)
				}
			}
			if pv, ok := v.V.(Ptr); ok {
				if sv, ok := pv.C.Load0().(*StructV); ok && sv.T == nil {
					if pt, ok := t.Underlying().(*types.Pointer); ok {
						sv.T = pt.Elem()
					}
				}
				return ret(Ptr{t, pv.C}, true)
			}
			return ret(v.V, true)
		}
		if toIface {
			ok := types.Implements(v.T, t.Underlying().(*types.Interface))
			return ret(v, ok)
		}
		return ret(v.V, types.Identical(v.T, t))
	case *Sym:
		if p.IsNil(v) {
			return ret(nil, false)
		}
		if toIface {
			if commaOk {
				if v.T != nil && types.Implements(v.T, t.Underlying().(*types.Interface)) {
					return ret(v, true)
				}
				return ret(v, p.isa(v.Key, t))
			}
			return ret(v, true)
		}
		if commaOk && !p.isa(v.Key, t) {
			return ret(nil, false)
		}
		n := *v
		n.T = t
		var nv Val = &n
		switch t.Underlying().(type) {
		case *types.Struct:
			nv = p.symValue(v.Key, t, nil)
		case *types.Pointer:
			n.NonNil = true
			if c, ok := p.memo[v.Key]; ok {
				if sv, ok := c.Load0().(*StructV); ok && sv.T == nil {
					sv.T = t.Underlying().(*types.Pointer).Elem()
				}
			}
		}
		return ret(nv, true)
	case Ptr:
		return ret(Ptr{t, v.C}, true)
	}
	return ret(x, true)
}

// isa decides whether the dynamic type of a term is t, it can only be one.
func (p *Path) isa(key string, t types.Type) bool {
	k := "isa:" + key
	if cur, ok := p.Data[k]; ok {
		return types.Identical(cur.(types.Type), t)
	}
	if p.ChooseBool("isa:" + key + ":" + t.String()) {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			p.Data[k] = t
		}
		return true
	}
	return false
}
