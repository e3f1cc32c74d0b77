package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// invoke describes an interface method call.
type invoke struct {
	recv Val
	m    *types.Func
	it   types.Type
}

func (p *Path) prepCall(f *frame, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, p.get(f, a))
	}
	if c.IsInvoke() {
		return invoke{p.get(f, c.Value), c.Method, c.Value.Type()}, args
	}
	return p.get(f, c.Value), args
}

func (p *Path) doCall(c *ssa.CallCommon, fn Val, args []Val, pos token.Pos) Val {
	switch f := fn.(type) {
	case invoke:
		return p.invoke(f, args, pos)
	case *FuncV:
		if strings.HasPrefix(f.Name, "builtin:") {
			return p.builtin(f.Name[len("builtin:"):], c, args, pos)
		}
	}
	return p.callValue(fn, args, pos, c.Signature())
}

// CallInvoke calls the named method of an interface value.
func (p *Path) CallInvoke(recv Val, m *types.Func, it types.Type, args ...Val) Val {
	return p.invoke(invoke{recv, m, it}, args, token.NoPos)
}

func (p *Path) invoke(f invoke, args []Val, pos token.Pos) Val {
	recv := p.Resolve(f.recv)
	if IsNilConst(recv) {
		p.panicf("nil dereference: method %s of nil interface", f.m.Name())
	}
	name := "iface:" + f.m.FullName()
	c := &Call{P: p, Name: name, Recv: recv, Args: args, Sig: f.m.Type().(*types.Signature), Pos: pos}
	if len(p.stack) > 0 {
		c.Caller = p.stack[len(p.stack)-1].fn
	}
	if v, ok := p.hook(c); ok {
		return v
	}
	if v, ok := p.invokeIntrinsic(c, f.m); ok {
		return v
	}
	if iv, ok := recv.(IfaceV); ok && iv.T != nil {
		if m := p.Eng.Prog.LookupMethod(iv.T, f.m.Pkg(), f.m.Name()); m != nil {
			return p.callFn(m, append([]Val{iv.V}, args...), nil, pos)
		}
	}
	if s, ok := recv.(*Sym); ok && s.T != nil {
		if _, isI := s.T.Underlying().(*types.Interface); !isI {
			if m := p.Eng.Prog.LookupMethod(s.T, f.m.Pkg(), f.m.Name()); m != nil {
				return p.callFn(m, append([]Val{s}, args...), nil, pos)
			}
		}
		if fv, ok := p.facts["nil:"+s.Key]; ok && fv == 0 {
			p.panicf("nil dereference: method %s of nil %s", f.m.Name(), s.Key)
		}
		p.facts["nil:"+s.Key] = 1
		if dt, ok := p.Data["isa:"+s.Key]; ok {
			if m := p.Eng.Prog.LookupMethod(dt.(types.Type), f.m.Pkg(), f.m.Name()); m != nil {
				return p.callFn(m, append([]Val{retype(s, dt.(types.Type))}, args...), nil, pos)
			}
		}
	}
	return p.opaque("call", name, c.Sig, append([]Val{recv}, args...), pos, false)
}

func (p *Path) builtin(name string, c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	for i := range args {
		args[i] = p.Resolve(args[i])
	}
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case SliceV:
			if name == "cap" {
				if x.Cap >= 0 {
					return MkInt(int64(x.Cap))
				}
				return p.Term("cap", types.Typ[types.Int], MkString(x.Arr.Label))
			}
			return MkInt(int64(x.Hi - x.Lo))
		case Const:
			if x.V == nil {
				return MkInt(0)
			}
			return MkInt(int64(len(constant.StringVal(x.V))))
		case MapV:
			if x.M.Base == "" {
				n := 0
				for _, e := range x.M.Entries {
					if e.Present {
						n++
					}
				}
				return MkInt(int64(n))
			}
			return p.Term("len", types.Typ[types.Int], x)
		case *Sym:
			if x.Op == "make" {
				return x.Args[0]
			}
			switch under(x.T).(type) {
			case *types.Slice:
				s, _ := p.SliceOf(x)
				return MkInt(int64(s.Hi - s.Lo))
			case *types.Map:
				if m, ok := p.maps[x.Key]; ok && m.Base == "" {
					n := 0
					for _, e := range m.Entries {
						if e.Present {
							n++
						}
					}
					return MkInt(int64(n))
				}
				v := p.Term("len", types.Typ[types.Int], x)
				p.narrow(v, MkInt(0), relEQ|relGT)
				p.relVals[Key(v)], p.relVals["0"] = v, MkInt(0)
				return v
			case *types.Basic:
				v := p.Term("len", types.Typ[types.Int], x)
				p.narrow(v, MkInt(0), relEQ|relGT)
				p.relVals[Key(v)], p.relVals["0"] = v, MkInt(0)
				return v
			case *types.Chan:
				return p.symValue(p.Fresh("len("+x.Key+")"), types.Typ[types.Int], nil)
			}
		case Ptr:
			if at, ok := x.T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return MkInt(at.Len())
			}
		case *StructV:
			return MkInt(int64(x.numFields()))
		case ChanV:
			return p.symValue(p.Fresh("len(chan)"), types.Typ[types.Int], nil)
		}
		p.Stuck("%s of %T", name, args[0])
	case "append":
		return p.appendVals(c, args, pos)
	case "copy":
		d, ok1 := p.SliceOf(args[0])
		var s SliceV
		ok2 := false
		if _, isStr := StringConst(args[1]); !isStr {
			s, ok2 = p.SliceOf(args[1])
		}
		if !ok1 || !ok2 {
			return p.symValue(p.Fresh("copy"), types.Typ[types.Int], nil)
		}
		n := d.Hi - d.Lo
		if s.Hi-s.Lo < n {
			n = s.Hi - s.Lo
		}
		vals := make([]Val, n)
		for i := 0; i < n; i++ {
			vals[i] = s.Arr.Cells[s.Lo+i].Load()
		}
		for i := 0; i < n; i++ {
			p.store(d.Arr.Cells[d.Lo+i], vals[i], pos)
		}
		return MkInt(int64(n))
	case "delete":
		p.mapDelete(args[0], args[1], pos)
		return TupleV{}
	case "close":
		ch := args[0]
		p.event(&Event{Kind: "close", Name: Key(ch), Args: []Val{ch}, Pos: pos})
		if IsNilConst(ch) {
			p.panicf("close of nil channel")
		}
		if c, ok := ch.(ChanV); ok {
			if c.C.Closed {
				p.panicf("close of closed channel")
			}
			if p.Cfg.Threads {
				p.yield("close")
				p.release(fmt.Sprint("chan", c.C.ID))
				if c.C.Closed {
					p.panicf("close of closed channel")
				}
			}
			c.C.Closed = true
		} else {
			if _, ok := p.facts["closed:"+Key(ch)]; ok {
				p.panicf("close of closed channel")
			}
			p.facts["closed:"+Key(ch)] = 1
		}
		return TupleV{}
	case "panic":
		panic(targetPanic{v: args[0], reason: "panic(" + Key(args[0]) + ")", pos: pos})
	case "recover":
		// the panicking frame is the closest one below that is running its deferred functions
		for i := len(p.stack) - 1; i >= 0; i-- {
			if f := p.stack[i]; f.inDefers {
				if f.panicV != nil {
					v := f.panicV.v
					f.panicV = nil
					if v == nil {
						v = p.NonNilSym(p.Fresh("panicvalue"), types.NewInterfaceType(nil, nil))
					}
					return v
				}
				break
			}
		}
		return Const{types.NewInterfaceType(nil, nil), nil}
	case "print", "println":
		return TupleV{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			l := p.Less(a, r)
			if l == (name == "min") {
				r = a
			}
		}
		return r
	case "clear":
		p.event(&Event{Kind: "clear", Name: Key(args[0]), Args: args, Pos: pos})
		if m := p.MapOf(args[0]); m != nil {
			m.Entries, m.Base = nil, ""
			return TupleV{}
		}
		p.Stuck("clear of %T", args[0])
	case "ssa:wrapnilchk":
		if IsNilConst(args[0]) {
			p.panicf("nil dereference")
		}
		return args[0]
	}
	p.Stuck("builtin %s", name)
	return nil
}

func (p *Path) appendVals(c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	t := c.Args[0].Type()
	if len(args) == 1 {
		return args[0]
	}
	if s, ok := args[1].(*Sym); ok {
		if b, isB := under(s.T).(*types.Basic); isB && b.Info()&types.IsString != 0 {
			return p.Term("append", t, args...)
		}
	}
	if _, isStr := StringConst(args[1]); isStr {
		return p.Term("append", t, args...)
	}
	if s, ok := args[0].(*Sym); ok && s.Op == "make" {
		return p.Term("append", t, args...)
	}
	// appending to unknown byte slices
	if st, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := st.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			if _, isS := args[0].(*Sym); isS {
				return p.Term("append", t, args...)
			}
			if _, isS := args[1].(*Sym); isS {
				return p.Term("append", t, args...)
			}
		}
	}
	a, ok1 := p.SliceOf(args[0])
	b, ok2 := p.SliceOf(args[1])
	if !ok1 || !ok2 {
		p.Stuck("append to %T of %T", args[0], args[1])
	}
	et := t.Underlying().(*types.Slice).Elem()
	n := b.Hi - b.Lo
	if n == 0 {
		if IsNilConst(args[0]) {
			return args[0]
		}
		return a
	}
	vals := make([]Val, n)
	for i := range vals {
		vals[i] = b.Arr.Cells[b.Lo+i].Load()
	}
	// appending may write to the backing array of a
	inPlace := false
	if a.Cap >= 0 {
		inPlace = a.Hi-a.Lo+n <= a.Cap
	} else if a.Hi < len(a.Arr.Cells) {
		inPlace = a.Hi+n <= len(a.Arr.Cells) // there is at least room for what we know is there
	}
	if !a.Arr.Fresh && a.Arr.Label != "" {
		extra := "may"
		if inPlace && a.Hi < len(a.Arr.Cells) {
			extra = "overwrites"
		}
		p.event(&Event{Kind: "append", Name: a.Arr.Label, Args: vals, Pos: pos, Extra: extra})
	}
	if inPlace {
		for i, v := range vals {
			k := a.Hi + i
			for k >= len(a.Arr.Cells) {
				cc := p.newCell(fmt.Sprintf("%s[%d]", a.Arr.Label, len(a.Arr.Cells)), et)
				cc.Fresh = a.Arr.Fresh
				a.Arr.Cells = append(a.Arr.Cells, cc)
			}
			a.Arr.Cells[k].Set(p, v)
		}
		a.Hi += n
		a.T = t
		return a
	}
	arr := &ArrObj{Label: p.Fresh("append"), Fresh: true}
	add := func(v Val) {
		cc := p.newCell(fmt.Sprintf("%s[%d]", arr.Label, len(arr.Cells)), et)
		cc.Fresh = true
		if sv, ok := v.(*StructV); ok {
			cc.v = sv.copyTo(cc, cc.Label)
		} else {
			cc.v = v
		}
		arr.Cells = append(arr.Cells, cc)
	}
	for i := a.Lo; i < a.Hi; i++ {
		add(a.Arr.Cells[i].Load())
	}
	for _, v := range vals {
		add(v)
	}
	return SliceV{T: t, Arr: arr, Hi: len(arr.Cells), Cap: p.spare(len(arr.Cells))}
}

// spare is the capacity of a list of n elements, -1 for exactly n.
func (p *Path) spare(n int) int {
	if !p.Cfg.SpareCap {
		return -1
	}
	return n + 2
}

// LockLabel names a lock.
func (p *Path) LockLabel(v Val) string {
	switch v := v.(type) {
	case Ptr:
		return v.C.Label
	case *Sym:
		return v.Key
	}
	return Key(v)
}

func (p *Path) lock(v Val, kind string, pos token.Pos) {
	if p.Cfg.Threads {
		p.lockThreaded(v, kind, pos)
		return
	}
	l := p.LockLabel(v)
	p.event(&Event{Kind: kind, Name: l, Pos: pos})
	switch kind {
	case "lock":
		if p.Held[l] != "" {
			p.event(&Event{Kind: "deadlock", Name: l, Pos: pos})
			p.Cut("deadlock")
		}
		p.Held[l] = "w"
	case "rlock":
		if p.Held[l] == "w" {
			p.event(&Event{Kind: "deadlock", Name: l, Pos: pos})
			p.Cut("deadlock")
		}
		p.Held[l] = "r"
		p.locks[l]++
	case "unlock":
		if p.Held[l] != "w" {
			p.panicf("unlock of unlocked mutex %s", l)
		}
		if p.Cfg.OnUnlock != nil {
			p.Cfg.OnUnlock(p, l, kind)
		}
		delete(p.Held, l)
	case "runlock":
		if p.Held[l] != "r" {
			p.panicf("runlock of unlocked mutex %s", l)
		}
		if p.Cfg.OnUnlock != nil {
			p.Cfg.OnUnlock(p, l, kind)
		}
		p.locks[l]--
		if p.locks[l] == 0 {
			delete(p.Held, l)
		}
	}
	if p.Cfg.OnLock != nil && (kind == "lock" || kind == "rlock") {
		p.Cfg.OnLock(p, l, kind)
	}
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "math": true, "unicode": true, "unicode/utf8": true, "bytes": true,
	"errors": true, "path": true, "reflect": true, "encoding/base64": true, "sort": true,
	"google.golang.org/grpc/codes": true,
}

var impure = map[string]bool{"time.Now": true, "time.After": true, "time.NewTimer": true, "time.NewTicker": true, "time.AfterFunc": true, "time.Sleep": true, "time.Since": true, "time.Until": true}

func pureFn(fn *ssa.Function, name string) bool {
	if impure[name] {
		return false
	}
	pp := pkgPath(fn)
	if purePkgs[pp] {
		return true
	}
	if pp == "time" && !strings.HasPrefix(name, "(*time.Timer)") && !strings.HasPrefix(name, "(*time.Ticker)") {
		return true
	}
	if pp == "fmt" && strings.HasPrefix(name, "fmt.Sprint") {
		return true
	}
	switch name {
	case "(*google.golang.org/protobuf/types/known/timestamppb.Timestamp).AsTime",
		"(*google.golang.org/protobuf/types/known/durationpb.Duration).AsDuration",
		"google.golang.org/grpc/status.Code":
		return true
	}
	return false
}

const (
	statusPkg = "google.golang.org/grpc/status"
	protoPkg  = "google.golang.org/protobuf/proto"
)

var errT = types.Universe.Lookup("error").Type()

// MkErr creates a status error.
func (p *Path) MkErr(code, msg Val) *Sym {
	return &Sym{Key: p.Fresh("status.Error(" + Key(code) + ")"), T: errT, Op: "status.Error", Args: []Val{code, msg}, NonNil: true}
}

// ErrCode returns the status code of an error, nil if the error isn't one created by the code under analysis.
func (p *Path) ErrCode(v Val) Val {
	v = p.Resolve(v)
	if IsNilConst(v) {
		return MkInt(0)
	}
	if s, ok := Unwrap(v).(*Sym); ok {
		switch s.Op {
		case "status.Error":
			return p.Resolve(s.Args[0])
		case "errors.New", "fmt.Errorf":
			return MkInt(2)
		}
	}
	return nil
}

func (p *Path) intrinsic(c *Call) (Val, bool) {
	a := c.Args
	if p.Cfg.Threads {
		if v, ok := p.threadIntrinsic(c); ok {
			return v, true
		}
		if v, ok := p.atomicOp(c); ok {
			return v, true
		}
	}
	switch c.Name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		p.lock(a[0], "lock", c.Pos)
		return TupleV{}, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		p.lock(a[0], "unlock", c.Pos)
		return TupleV{}, true
	case "(*sync.RWMutex).RLock":
		p.lock(a[0], "rlock", c.Pos)
		return TupleV{}, true
	case "(*sync.RWMutex).RUnlock":
		p.lock(a[0], "runlock", c.Pos)
		return TupleV{}, true
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		if st := p.lockSt[p.LockLabel(a[0])]; p.Cfg.Threads && st != nil && (st.w != nil || len(st.r) > 0) {
			return MkBool(false), true
		}
		if p.Held[p.LockLabel(a[0])] == "" && (p.Cfg.Threads || p.ChooseBool(p.Fresh("trylock"))) {
			p.lock(a[0], "lock", c.Pos)
			return MkBool(true), true
		}
		return MkBool(false), true
	case "(*sync.Once).Do":
		l := p.LockLabel(a[0])
		done, ok := p.onces[l]
		if !ok {
			if pv, isP := a[0].(Ptr); isP && pv.C.Fresh {
				done = false
			} else {
				done = !p.ChooseBool("once:" + l)
			}
		}
		p.onces[l] = true
		if !done {
			p.callValue(a[1], nil, c.Pos, nil)
		}
		return TupleV{}, true
	case statusPkg + ".Error", "google.golang.org/grpc/internal/status.Err":
		return p.MkErr(a[0], a[1]), true
	case statusPkg + ".Errorf":
		return p.MkErr(a[0], p.Term("sprintf", types.Typ[types.String], a[1:]...)), true
	case statusPkg + ".New":
		return &Sym{Key: p.Fresh("status.New"), T: resultType(c.Sig), Op: "status.New", Args: []Val{a[0], a[1]}, NonNil: true}, true
	case statusPkg + ".Newf":
		return &Sym{Key: p.Fresh("status.New"), T: resultType(c.Sig), Op: "status.New", Args: []Val{a[0], p.Term("sprintf", types.Typ[types.String], a[1:]...)}, NonNil: true}, true
	case "errors.New":
		return &Sym{Key: p.Fresh("errors.New"), T: errT, Op: "errors.New", Args: a, NonNil: true}, true
	case "fmt.Sprintf":
		if v, ok := p.sprintf(c); ok {
			return v, true
		}
	case "fmt.Errorf":
		return &Sym{Key: p.Fresh("fmt.Errorf"), T: errT, Op: "fmt.Errorf", Args: a, NonNil: true}, true
	case statusPkg + ".Code":
		if code := p.ErrCode(a[0]); code != nil {
			return retype(code, resultType(c.Sig)), true
		}
		if p.IsNil(a[0]) {
			return Const{resultType(c.Sig), constant.MakeInt64(0)}, true
		}
		return p.Term("status.Code", resultType(c.Sig), a[0]), true
	case statusPkg + ".FromError":
		st := c.Sig.Results().At(0).Type()
		e := p.Resolve(a[0])
		if IsNilConst(e) {
			return TupleV{MkNil(st), MkBool(true)}, true
		}
		if s, ok := Unwrap(e).(*Sym); ok {
			if s.Op == "status.Error" {
				return TupleV{&Sym{Key: "statusof(" + s.Key + ")", T: st, Op: "status.New", Args: s.Args, NonNil: true}, MkBool(true)}, true
			}
			if s.Op == "errors.New" || s.Key == "global:context.Canceled" || s.Key == "global:context.DeadlineExceeded" || s.Key == "global:io.EOF" {
				return TupleV{&Sym{Key: "statusof(" + s.Key + ")", T: st, Op: "status.New", Args: []Val{MkInt(2), s}, NonNil: true}, MkBool(false)}, true
			}
		}
		ok := p.ChooseBool("isstatus:" + Key(e))
		return TupleV{&Sym{Key: "statusof(" + Key(e) + ")", T: st, Op: "statusof", Args: []Val{e}, NonNil: true}, MkBool(ok)}, true
	case "(*google.golang.org/grpc/internal/status.Status).Code":
		if s, ok := p.Resolve(a[0]).(*Sym); ok {
			if s.Op == "status.New" {
				return retype(p.Resolve(s.Args[0]), resultType(c.Sig)), true
			}
			if s.Op == "statusof" {
				return p.Term("status.Code", resultType(c.Sig), s.Args[0]), true
			}
		}
		if IsNilConst(p.Resolve(a[0])) {
			return Const{resultType(c.Sig), constant.MakeInt64(0)}, true
		}
	case "(*google.golang.org/grpc/internal/status.Status).Message":
		if s, ok := p.Resolve(a[0]).(*Sym); ok && s.Op == "status.New" {
			return s.Args[1], true
		}
	case "(*google.golang.org/grpc/internal/status.Status).Err":
		if s, ok := p.Resolve(a[0]).(*Sym); ok && s.Op == "status.New" {
			return p.MkErr(s.Args[0], s.Args[1]), true
		}
	case "errors.Is":
		e, t := p.Resolve(a[0]), p.Resolve(a[1])
		if IsNilConst(e) {
			return MkBool(IsNilConst(t)), true
		}
		if Key(e) == Key(t) {
			return MkBool(true), true
		}
		es, ok1 := Unwrap(e).(*Sym)
		ts, ok2 := Unwrap(t).(*Sym)
		if ok1 && p.isFreshErr(es) && es.Op != "fmt.Errorf" {
			return MkBool(false), true
		}
		if ok1 && es.T != nil && p.IsNil(es) {
			return MkBool(false), true
		}
		if ok1 && ok2 && strings.HasPrefix(es.Key, "global:") && strings.HasPrefix(ts.Key, "global:") {
			return MkBool(false), true
		}
		return MkBool(p.ChooseBool("errors.Is(" + Key(e) + "," + Key(t) + ")")), true
	case "context.Background", "context.TODO":
		return &Sym{Key: "context.Background", T: resultType(c.Sig), Op: c.Name, NonNil: true}, true
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause":
		key := p.Fresh("ctx(" + Key(a[0]) + ")")
		ctx := &Sym{Key: key, T: c.Sig.Results().At(0).Type(), Op: c.Name, Args: a, NonNil: true}
		p.event(&Event{Kind: "call", Name: c.Name, Args: a, Res: ctx, Pos: c.Pos})
		if p.Cfg.Threads {
			ci := p.ctx(ctx)
			if c.Name == "context.WithTimeout" || c.Name == "context.WithDeadline" {
				p.timers = append(p.timers, &timer{key: key, ctx: ci, d: a[1]})
			}
		}
		cancel := &FuncV{Name: "cancel(" + key + ")", T: c.Sig.Results().At(1).Type(), Native: func(p *Path, args []Val) Val {
			p.event(&Event{Kind: "cancel", Name: key, Args: []Val{ctx}})
			if p.Cfg.Threads {
				p.CancelCtx(ctx)
				return TupleV{}
			}
			p.facts["nil:"+key+".Err()"] = 1
			p.facts["cancelled:"+key] = 1
			return TupleV{}
		}}
		return TupleV{ctx, cancel}, true
	case "google.golang.org/grpc/status.FromContextError":
		if e, ok := Unwrap(p.Resolve(a[0])).(*Sym); ok {
			code := int64(2)
			switch e.Key {
			case "global:context.Canceled":
				code = 1
			case "global:context.DeadlineExceeded":
				code = 4
			}
			return &Sym{Key: p.Fresh("status.New"), T: resultType(c.Sig), Op: "status.New", Args: []Val{MkInt(code), p.Term("Error", types.Typ[types.String], e)}, NonNil: true}, true
		}
	case "context.WithValue":
		return &Sym{Key: p.Fresh("ctx(" + Key(a[0]) + ")"), T: resultType(c.Sig), Op: c.Name, Args: a, NonNil: true}, true
	case protoPkg + ".Clone", "google.golang.org/protobuf/proto.CloneOf":
		v := p.CloneMsg(a[0])
		p.event(&Event{Kind: "call", Name: c.Name, Args: a, Res: v, Pos: c.Pos})
		return v, true
	case protoPkg + ".Equal":
		r := p.ProtoEqual(a[0], a[1])
		p.event(&Event{Kind: "call", Name: c.Name, Args: a, Res: MkBool(r), Pos: c.Pos})
		return MkBool(r), true
	case protoPkg + ".Merge":
		p.event(&Event{Kind: "mutate", Name: c.Name, Args: a, Pos: c.Pos})
		p.MergeMsg(a[0], a[1])
		return TupleV{}, true
	case protoPkg + ".Reset":
		p.event(&Event{Kind: "mutate", Name: c.Name, Args: a, Pos: c.Pos})
		p.ResetMsg(a[0])
		return TupleV{}, true
	case "google.golang.org/protobuf/types/known/timestamppb.New", "google.golang.org/protobuf/types/known/durationpb.New":
		pt := resultType(c.Sig)
		pv := p.Alloc(pt.(*types.Pointer).Elem(), c.Name[strings.LastIndex(c.Name, "/")+1:])
		pv.C.Load0().(*StructV).Base = p.Term(c.Name[strings.LastIndex(c.Name, "/")+1:], types.Typ[types.Int], a[0]).(*Sym).Key
		pv.T = pt
		p.Data["time:"+pv.C.Label] = a[0]
		return pv, true
	case "google.golang.org/protobuf/types/known/timestamppb.Now":
		pt := resultType(c.Sig)
		pv := p.Alloc(pt.(*types.Pointer).Elem(), "timestamppb.Now")
		pv.C.Load0().(*StructV).Base = p.Fresh("timestamppb.Now")
		pv.T = pt
		return pv, true
	case "sort.Slice", "sort.SliceStable":
		s, ok := p.SliceOf(Unwrap(a[0]))
		if !ok {
			return nil, false
		}
		p.event(&Event{Kind: "sort", Name: s.Arr.Label, Args: a, Pos: c.Pos})
		p.insertionSort(s, func(i, j int) bool {
			return p.Truth(p.callValue(a[1], []Val{MkInt(int64(i)), MkInt(int64(j))}, c.Pos, nil))
		})
		return TupleV{}, true
	case "slices.SortFunc", "slices.SortStableFunc":
		s, ok := p.SliceOf(a[0])
		if !ok {
			return nil, false
		}
		p.event(&Event{Kind: "sort", Name: s.Arr.Label, Args: a, Pos: c.Pos})
		p.insertionSort(s, func(i, j int) bool {
			r := p.callValue(a[1], []Val{s.Arr.Cells[s.Lo+i].Load(), s.Arr.Cells[s.Lo+j].Load()}, c.Pos, nil)
			return p.Less(r, MkInt(0))
		})
		return TupleV{}, true
	case "slices.Sort", "sort.Strings", "sort.Ints", "sort.Float64s":
		s, ok := p.SliceOf(a[0])
		if !ok {
			return nil, false
		}
		p.event(&Event{Kind: "sort", Name: s.Arr.Label, Args: a, Pos: c.Pos})
		p.insertionSort(s, func(i, j int) bool {
			return p.Less(s.Arr.Cells[s.Lo+i].Load(), s.Arr.Cells[s.Lo+j].Load())
		})
		return TupleV{}, true
	case "sort.Sort", "sort.Stable":
		return p.sortIface(c)
	case "sort.Search":
		n, ok := IntConst(p.Resolve(a[0]))
		if !ok {
			return nil, false
		}
		p.event(&Event{Kind: "search", Name: "sort.Search", Args: a, Pos: c.Pos})
		i, j := int64(0), n
		for i < j {
			h := i + (j-i)/2
			if !p.Truth(p.callValue(a[1], []Val{MkInt(h)}, c.Pos, nil)) {
				i = h + 1
			} else {
				j = h
			}
		}
		return MkInt(i), true
	case "sort.SliceIsSorted":
		s, ok := p.SliceOf(Unwrap(a[0]))
		if !ok {
			return nil, false
		}
		for i := s.Hi - s.Lo - 1; i > 0; i-- {
			if p.Truth(p.callValue(a[1], []Val{MkInt(int64(i)), MkInt(int64(i - 1))}, c.Pos, nil)) {
				return MkBool(false), true
			}
		}
		return MkBool(true), true
	case "slices.IsSortedFunc":
		s, ok := p.SliceOf(a[0])
		if !ok {
			return nil, false
		}
		for i := s.Hi - s.Lo - 1; i > 0; i-- {
			r := p.callValue(a[1], []Val{s.Arr.Cells[s.Lo+i].Load(), s.Arr.Cells[s.Lo+i-1].Load()}, c.Pos, nil)
			if p.Less(r, MkInt(0)) {
				return MkBool(false), true
			}
		}
		return MkBool(true), true
	case "sort.StringsAreSorted", "slices.IsSorted":
		s, ok := p.SliceOf(a[0])
		if !ok {
			return nil, false
		}
		for i := s.Hi - 1; i > s.Lo; i-- {
			if p.Less(s.Arr.Cells[i].Load(), s.Arr.Cells[i-1].Load()) {
				return MkBool(false), true
			}
		}
		return MkBool(true), true
	case "sort.SearchStrings":
		s, ok := p.SliceOf(a[0])
		if !ok {
			return nil, false
		}
		for i := s.Lo; i < s.Hi; i++ {
			if !p.Less(s.Arr.Cells[i].Load(), a[1]) {
				return MkInt(int64(i - s.Lo)), true
			}
		}
		return MkInt(int64(s.Hi - s.Lo)), true
	case "strings.Compare", "cmp.Compare":
		if p.Less(a[0], a[1]) {
			return MkInt(-1), true
		}
		if p.Equal(a[0], a[1]) {
			return MkInt(0), true
		}
		return MkInt(1), true
	case "cmp.Less":
		return MkBool(p.Less(a[0], a[1])), true
	case "slices.Contains":
		s, ok := p.SliceOf(a[0])
		if !ok {
			return nil, false
		}
		for i := s.Lo; i < s.Hi; i++ {
			if p.Equal(s.Arr.Cells[i].Load(), a[1]) {
				return MkBool(true), true
			}
		}
		return MkBool(false), true
	case "strings.HasPrefix", "strings.TrimPrefix", "strings.Contains", "strings.HasSuffix", "strings.EqualFold", "strings.ToLower", "strings.ToUpper":
		x, ok1 := StringConst(p.Resolve(a[0]))
		if len(a) == 1 {
			if ok1 {
				if c.Name == "strings.ToLower" {
					return MkString(strings.ToLower(x)), true
				}
				return MkString(strings.ToUpper(x)), true
			}
			break
		}
		y, ok2 := StringConst(p.Resolve(a[1]))
		if ok1 && ok2 {
			switch c.Name {
			case "strings.HasPrefix":
				return MkBool(strings.HasPrefix(x, y)), true
			case "strings.HasSuffix":
				return MkBool(strings.HasSuffix(x, y)), true
			case "strings.Contains":
				return MkBool(strings.Contains(x, y)), true
			case "strings.EqualFold":
				return MkBool(strings.EqualFold(x, y)), true
			case "strings.TrimPrefix":
				return MkString(strings.TrimPrefix(x, y)), true
			}
		}
	}
	if v, ok := floatFn(c); ok {
		return v, true
	}
	if v, ok := p.strFn(c); ok {
		return v, true
	}
	// getters of generated messages
	if c.Fn != nil && len(a) == 1 && strings.HasPrefix(c.Fn.Name(), "Get") && c.Fn.Signature.Recv() != nil && !p.Eng.InModule(c.Fn) {
		if v, ok := p.getter(c, c.Fn.Name()[3:]); ok {
			return v, true
		}
	}
	if c.Fn != nil && c.Fn.Name() == "ProtoReflect" && len(a) == 1 {
		return &Sym{Key: "reflect(" + Key(a[0]) + ")", T: resultType(c.Sig), Op: "ProtoReflect", Args: []Val{a[0]}, NonNil: true}, true
	}
	return nil, false
}

func (p *Path) getter(c *Call, field string) (Val, bool) {
	rt, ok := c.Fn.Signature.Recv().Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	st, ok := rt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != field {
			continue
		}
		res := resultType(c.Sig)
		ft := st.Field(i).Type()
		recv := p.Resolve(c.Args[0])
		isNil := false
		if s, ok := recv.(*Sym); ok && !s.NonNil {
			if _, known := p.facts["nil:"+s.Key]; known || !p.assumeNonNil(s.Key) {
				isNil = p.IsNil(s)
			}
		} else {
			isNil = p.IsNil(recv)
		}
		if isNil {
			return p.zero(res, nil), true
		}
		cell := p.structOf(p.Deref(recv), rt.Elem()).Field(i)
		p.access(cell, false)
		if types.Identical(ft, res) {
			return cell.Load(), true
		}
		if pt, ok := ft.Underlying().(*types.Pointer); ok && types.Identical(pt.Elem(), res) {
			v := cell.Load()
			if p.IsNil(v) {
				return p.zero(res, nil), true
			}
			return p.Deref(v).Load(), true
		}
		return nil, false
	}
	// a oneof, the getter type switches on the wrapper
	if p.Cfg.Inline == nil && len(c.Fn.Blocks) > 0 {
		return p.interp(c.Fn, c.Args, nil), true
	}
	return nil, false
}

func (p *Path) assumeNonNil(key string) bool {
	f, ok := p.Data["nonnil"]
	return ok && f.(func(string) bool)(key)
}

func (p *Path) insertionSort(s SliceV, less func(i, j int) bool) {
	n := s.Hi - s.Lo
	if n > 24 {
		idx := make([]int, n)
		vals := make([]Val, n)
		for i := range idx {
			idx[i] = i
		}
		sort.SliceStable(idx, func(i, j int) bool { return less(idx[i], idx[j]) })
		for i := range vals {
			vals[i] = s.Arr.Cells[s.Lo+i].Load()
		}
		for i, j := range idx {
			if i != j {
				s.Arr.Cells[s.Lo+i].Set(p, vals[j])
			}
		}
		return
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			if !less(j, j-1) {
				break
			}
			a, b := s.Arr.Cells[s.Lo+j], s.Arr.Cells[s.Lo+j-1]
			va, vb := a.Load(), b.Load()
			a.Set(p, vb)
			b.Set(p, va)
		}
	}
}

func (p *Path) sortIface(c *Call) (Val, bool) {
	iv, ok := c.Args[0].(IfaceV)
	if !ok || iv.T == nil {
		return nil, false
	}
	m := func(name string) *ssa.Function { return p.Eng.Prog.LookupMethod(iv.T, nil, name) }
	ln, ls, sw := m("Len"), m("Less"), m("Swap")
	if ln == nil || ls == nil || sw == nil {
		return nil, false
	}
	nv := p.Resolve(p.callFn(ln, []Val{iv.V}, nil, c.Pos))
	n, ok := IntConst(nv)
	if !ok {
		return nil, false
	}
	for i := int64(1); i < n; i++ {
		for j := i; j > 0; j-- {
			if !p.Truth(p.callFn(ls, []Val{iv.V, MkInt(j), MkInt(j - 1)}, nil, c.Pos)) {
				break
			}
			p.callFn(sw, []Val{iv.V, MkInt(j), MkInt(j - 1)}, nil, c.Pos)
		}
	}
	return TupleV{}, true
}

func (p *Path) invokeIntrinsic(c *Call, m *types.Func) (Val, bool) {
	switch m.FullName() {
	case "(context.Context).Done":
		return &Sym{Key: "done(" + Key(c.Recv) + ")", T: resultType(c.Sig), Op: "done", Args: []Val{c.Recv}, NonNil: true}, true
	case "(context.Context).Err":
		if p.Cfg.Threads {
			return p.ctxErrVal(c.Recv), true
		}
		return &Sym{Key: Key(c.Recv) + ".Err()", T: errT, Op: "ctx.Err", Args: []Val{c.Recv}}, true
	case "(error).Error":
		return p.Term("Error", types.Typ[types.String], c.Recv), true
	}
	switch m.Name() {
	case "ProtoReflect":
		return &Sym{Key: "reflect(" + Key(c.Recv) + ")", T: resultType(c.Sig), Op: "ProtoReflect", Args: []Val{c.Recv}, NonNil: true}, true
	case "New", "Interface", "IsValid", "Descriptor", "Type", "Zero":
		s, ok := c.Recv.(*Sym)
		if !ok || s.Op != "ProtoReflect" {
			break
		}
		switch m.Name() {
		case "Descriptor":
			if n := p.NewMsgLike(s.Args[0]).(IfaceV); n.T != nil {
				return &Sym{Key: "descriptor(" + n.T.String() + ")", T: resultType(c.Sig), Op: "descriptor", NonNil: true}, true
			}
		case "New":
			n := p.NewMsgLike(s.Args[0])
			return &Sym{Key: "reflect(" + Key(n) + ")", T: resultType(c.Sig), Op: "ProtoReflect", Args: []Val{n}, NonNil: true}, true
		case "Interface":
			return s.Args[0], true
		case "IsValid":
			if iv, ok := s.Args[0].(IfaceV); ok {
				return MkBool(!p.IsNil(iv.V)), true
			}
			return MkBool(!p.IsNil(s.Args[0])), true
		}
	}
	return nil, false
}

// NewMsgLike creates an empty message of the same type.
func (p *Path) NewMsgLike(v Val) Val {
	v = p.Resolve(v)
	var t types.Type
	switch x := v.(type) {
	case IfaceV:
		if x.T != nil {
			if pt, ok := x.T.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
		} else if pv, ok := x.V.(Ptr); ok {
			if sv, ok := pv.C.Load0().(*StructV); ok {
				t = sv.T
			}
		}
	case Ptr:
		t = x.T.Underlying().(*types.Pointer).Elem()
	case *Sym:
		if x.T != nil {
			if pt, ok := x.T.Underlying().(*types.Pointer); ok {
				t = pt.Elem()
			}
		}
	}
	c := p.newCell(p.Fresh("newmsg"), t)
	c.Fresh = true
	c.v = &StructV{T: t, Src: c.Label, F: map[int]*Cell{}, p: p, home: c}
	var pt types.Type
	if t != nil {
		pt = types.NewPointer(t)
	}
	return IfaceV{pt, Ptr{pt, c}}
}

// CloneMsg makes a deep copy of a message.
func (p *Path) CloneMsg(v Val) Val {
	v = p.Resolve(v)
	switch x := v.(type) {
	case Const:
		return v
	case IfaceV:
		return IfaceV{x.T, p.CloneMsg(x.V)}
	case *Sym:
		if p.IsNil(x) {
			return Const{x.T, nil}
		}
		c := p.Deref(x)
		var t types.Type
		if x.T != nil {
			if _, ok := x.T.Underlying().(*types.Pointer); ok {
				t = x.T
			}
		}
		pv := Ptr{t, p.cloneCell(c)}
		if t == nil {
			return IfaceV{nil, pv}
		}
		return pv
	case Ptr:
		return Ptr{x.T, p.cloneCell(x.C)}
	}
	p.Stuck("clone of %T", v)
	return nil
}

func (p *Path) cloneCell(c *Cell) *Cell {
	p.access(c, false)
	n := p.newCell(p.Fresh("clone("+c.Label+")"), c.T)
	n.Fresh = true
	v := c.Load0()
	sv, ok := v.(*StructV)
	if !ok {
		n.v = v
		return n
	}
	cp := &StructV{T: sv.T, Base: sv.Base, Src: n.Label, F: map[int]*Cell{}, p: p, home: n}
	for i, fc := range sv.F {
		if fc.v == nil {
			continue
		}
		nc := p.newCell(n.Label+"."+sv.fieldName(i), fc.T)
		nc.Parent = n
		nc.Fresh = true
		nc.v = p.cloneDeep(fc.Load())
		cp.F[i] = nc
	}
	// pointers that haven't been looked at yet refer to copies too, give them a term of their own when they are
	if sv.Base != "" {
		cp.Base = sv.Base
		p.Data["clonebase:"+n.Label] = true
	}
	n.v = cp
	return n
}

func (p *Path) cloneDeep(v Val) Val {
	v = p.Resolve(v)
	switch x := v.(type) {
	case Ptr:
		return Ptr{x.T, p.cloneCell(x.C)}
	case *Sym:
		if x.T == nil {
			return v
		}
		switch x.T.Underlying().(type) {
		case *types.Pointer:
			if c, ok := p.memo[x.Key]; ok {
				return Ptr{x.T, p.cloneCell(c)}
			}
			return v
		case *types.Slice:
			if s, ok := p.slices[x.Key]; ok {
				return p.cloneSlice(s.(SliceV))
			}
		case *types.Map:
			if m, ok := p.maps[x.Key]; ok {
				return p.cloneMap(MapV{x.T, m})
			}
		}
		return v
	case SliceV:
		return p.cloneSlice(x)
	case MapV:
		return p.cloneMap(x)
	case IfaceV:
		return IfaceV{x.T, p.cloneDeep(x.V)}
	}
	return v
}

func (p *Path) cloneSlice(s SliceV) Val {
	arr := &ArrObj{Label: p.Fresh("clone(" + s.Arr.Label + ")"), Fresh: true}
	for i := s.Lo; i < s.Hi; i++ {
		c := s.Arr.Cells[i]
		n := p.newCell(fmt.Sprintf("%s[%d]", arr.Label, i-s.Lo), c.T)
		n.Fresh = true
		n.v = p.cloneDeep(c.Load())
		arr.Cells = append(arr.Cells, n)
	}
	return SliceV{T: s.T, Arr: arr, Hi: len(arr.Cells), Cap: p.spare(len(arr.Cells))}
}

func (p *Path) cloneMap(m MapV) Val {
	p.nextID++
	n := &MapObj{ID: p.nextID, Label: p.Fresh("clone(" + m.M.Label + ")"), Base: m.M.Base, Fresh: true}
	for _, e := range m.M.Entries {
		ne := &MapEntry{Key: e.Key, Present: e.Present}
		if e.Cell != nil {
			nc := p.newCell(n.Label+"["+Key(e.Key)+"]", e.Cell.T)
			nc.v = p.cloneDeep(e.Cell.Load())
			ne.Cell = nc
		}
		n.Entries = append(n.Entries, ne)
	}
	return MapV{m.T, n}
}

// MsgCell returns the location of a message.
func (p *Path) MsgCell(v Val) *Cell { return p.Deref(Unwrap(p.Resolve(v))) }

// MsgContent describes the content of a message.
func (p *Path) MsgContent(v Val) string {
	v = p.Resolve(v)
	if IsNilConst(v) {
		return "nil"
	}
	c := p.MsgCell(v)
	if sv, ok := c.Load0().(*StructV); ok {
		return sv.deepContent(0)
	}
	return Key(c.Load0())
}

// ProtoEqual decides whether two messages are equal.
func (p *Path) ProtoEqual(a, b Val) bool {
	a, b = p.Resolve(a), p.Resolve(b)
	na, nb := p.IsNil(a), p.IsNil(b)
	if na || nb {
		return na && nb
	}
	ca, cb := p.MsgCell(a), p.MsgCell(b)
	if ca == cb {
		return true
	}
	p.access(ca, false)
	p.access(cb, false)
	return p.EqualContent(p.MsgContent(a), p.MsgContent(b))
}

func isZeroContent(k string) bool {
	return k == "zero" || strings.HasPrefix(k, "zero(") && !strings.Contains(k, "{")
}

// EqualContent decides whether messages with the given contents are equal.
func (p *Path) EqualContent(ka, kb string) bool {
	if ka == kb || isZeroContent(ka) && isZeroContent(kb) {
		return true
	}
	if ka == "nil" || kb == "nil" {
		return false
	}
	if isZeroContent(ka) {
		ka = "zero"
	}
	if isZeroContent(kb) {
		kb = "zero"
	}
	if ka > kb {
		ka, kb = kb, ka
	}
	return p.ChooseBool("equal(" + ka + "," + kb + ")")
}

// CloneDeep copies a value and the messages it refers to.
func (p *Path) CloneDeep(v Val) Val { return p.cloneDeep(v) }

// AccessDeep records that a message and everything in it is read or written.
func (p *Path) AccessDeep(v Val, write bool) {
	switch x := Unwrap(p.Resolve(v)).(type) {
	case Ptr:
		if x.C == nil {
			return
		}
		p.access(x.C, write)
		if sv, ok := x.C.Load0().(*StructV); ok {
			for _, fc := range sv.F {
				if fc.v == nil {
					continue
				}
				switch fc.v.(type) {
				case Ptr, SliceV, MapV, IfaceV:
					p.AccessDeep(fc.v, write)
				}
			}
		}
	case SliceV:
		for i := x.Lo; i < x.Hi; i++ {
			c := x.Arr.Cells[i]
			p.access(c, write)
			switch c.v.(type) {
			case Ptr, SliceV, MapV, IfaceV:
				p.AccessDeep(c.v, write)
			}
		}
	case MapV:
		p.accessMap(x.M, write)
		for _, e := range x.M.Entries {
			if e.Cell != nil {
				switch e.Cell.v.(type) {
				case Ptr, SliceV, MapV, IfaceV:
					p.AccessDeep(e.Cell.v, write)
				}
			}
		}
	}
}

// MergeMsg is proto.Merge.
func (p *Path) MergeMsg(dst, src Val) {
	dc, sc := p.MsgCell(dst), p.MsgCell(src)
	d, ok1 := dc.Load0().(*StructV)
	s, ok2 := sc.Load0().(*StructV)
	if !ok1 || !ok2 {
		p.Stuck("merge")
	}
	p.access(dc, true)
	p.access(sc, false)
	if d.Base == "" && len(d.F) == 0 || d.ContentKey() == "zero" || strings.HasPrefix(d.ContentKey(), "zero(") && !strings.Contains(d.ContentKey(), "{") {
		// merging into an empty message is a copy
		cp := p.cloneCell(sc).Load0().(*StructV)
		if cp.T == nil {
			cp.T = d.T
		}
		dc.Set(p, cp)
		if nd, ok := dc.v.(*StructV); ok && nd.T == nil {
			nd.T = cp.T
		}
		return
	}
	if s.Base == "" {
		if s.T == nil || d.T == nil {
			return
		}
		// only known fields are set
		for i, fc := range s.F {
			if fc.v == nil {
				continue
			}
			fv := fc.Load()
			if Key(fv) == Key(p.zero(s.fieldType(i), nil)) {
				continue
			}
			switch s.fieldType(i).Underlying().(type) {
			case *types.Basic:
				d.Field(i).Set(p, fv)
				continue
			case *types.Pointer:
				if !p.IsNil(fv) {
					cur := d.Field(i).Load()
					if _, isStruct := s.fieldType(i).Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); isStruct && !p.IsNil(cur) {
						p.MergeMsg(cur, fv)
					} else {
						d.Field(i).Set(p, p.cloneDeep(fv))
					}
				}
				continue
			case *types.Slice:
				if sl, ok := p.SliceOf(fv); ok && sl.Hi > sl.Lo {
					cur, ok := p.SliceOf(d.Field(i).Load())
					if ok {
						cl := p.cloneSlice(sl).(SliceV)
						arr := &ArrObj{Label: p.Fresh("merge"), Fresh: true}
						arr.Cells = append(arr.Cells, cur.Arr.Cells[cur.Lo:cur.Hi]...)
						arr.Cells = append(arr.Cells, cl.Arr.Cells...)
						d.Field(i).Set(p, SliceV{T: fv.(interface{}).(SliceV).T, Arr: arr, Hi: len(arr.Cells), Cap: -1})
					}
				}
				continue
			}
			d.Field(i).Set(p, p.cloneDeep(fv))
		}
		return
	}
	key := "merge(" + d.deepContent(0) + "," + s.deepContent(0) + ")"
	d.Base = key
	d.F = map[int]*Cell{}
}

// ResetMsg is proto.Reset.
func (p *Path) ResetMsg(m Val) {
	c := p.MsgCell(m)
	sv, ok := c.Load0().(*StructV)
	if !ok {
		p.Stuck("reset")
	}
	p.access(c, true)
	c.Set(p, &StructV{T: sv.T, Src: c.Label, F: map[int]*Cell{}, p: p})
}

// SetContent replaces the content of a message with a term.
func (p *Path) SetContent(m Val, term string) {
	c := p.MsgCell(m)
	sv, ok := c.Load0().(*StructV)
	if !ok {
		p.Stuck("set content of %T", c.Load0())
	}
	p.access(c, true)
	sv.Base = term
	sv.F = map[int]*Cell{}
}

// RunGo interprets the function of a go statement.
func (p *Path) RunGo(fc *FuncCall) (o Outcome) {
	held := len(p.stack)
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(targetPanic); ok {
				p.stack = p.stack[:held]
				o = Outcome{Panic: true, Reason: tp.reason, Pos: tp.pos, Fn: tp.fn}
				return
			}
			panic(r)
		}
	}()
	oldHeld := p.Held
	p.Held = map[string]string{}
	defer func() { p.Held = oldHeld }()
	r := p.doCall(fc.Call, fc.Fn, fc.Args, fc.Pos)
	return Outcome{Ret: unpack(r)}
}

// sprintf formats known strings and integers.
func (p *Path) sprintf(c *Call) (Val, bool) {
	format, ok := StringConst(p.Resolve(c.Args[0]))
	if !ok || len(c.Args) != 2 {
		return nil, false
	}
	for i := strings.IndexByte(format, '%'); i >= 0; {
		if i+1 >= len(format) || !strings.ContainsRune("sdvq", rune(format[i+1])) {
			return nil, false
		}
		j := strings.IndexByte(format[i+2:], '%')
		if j < 0 {
			break
		}
		i += 2 + j
	}
	sl, ok := p.Resolve(c.Args[1]).(SliceV)
	if !ok {
		return nil, false
	}
	var args []any
	for i := sl.Lo; i < sl.Hi; i++ {
		v := p.Resolve(sl.Arr.Cells[i].Load())
		iv, ok := v.(IfaceV)
		if !ok {
			return nil, false
		}
		if _, ok := types.Unalias(iv.T).(*types.Basic); !ok {
			return nil, false
		}
		if s, ok := StringConst(p.Resolve(iv.V)); ok {
			args = append(args, s)
		} else if n, ok := IntConst(p.Resolve(iv.V)); ok {
			args = append(args, n)
		} else {
			return nil, false
		}
	}
	return MkString(fmt.Sprintf(format, args...)), true
}
