package rules

import (
	"fmt"
	"go/types"
	"strings"

	"scverify/internal/absint")

func init() {
	register("C13", "script", "Every pair of scripts has the outcome it has over gRPC, and leaves nothing behind", c13Scripts)
	register("C13", "schedule", "The outcome doesn't depend on how the sides are scheduled", c13Schedules)
	register("C13", "method", "Unknown methods are unimplemented, methods of another shape an internal error", c13Shapes)
	register("C13", "copy", "Messages are copied across the boundary", c13Copies)
	register("C13", "together", "Calls are independent of each other", c13Together)
}

const (
	wrapPkg      = "pkg/wrap"
	testprotoPkg = "internal/testproto"
)

// wop is a step of a script.
//
// Of servers: r receive, R receive until the end, s send, h/H/g set/send/grpc.SetHeader a header, t set a trailer,
// w wait for the context to end, x/d the client's context is cancelled/expires (by someone else), and as the last one
// ok, E:code:message, P:message (not a status), C and D (context errors).
//
// Of clients: s send, c close, H header, r receive, R receive until the end, T trailer, x/d cancel/expire.
type wop struct{ kind, a, b string }

func wops(script string) []wop {
	var r []wop
	for _, f := range strings.Fields(script) {
		p := append(strings.SplitN(f, ":", 3), "", "")
		r = append(r, wop{p[0], p[1], p[2]})
	}
	return r
}

// wref is what real gRPC does with a pair of scripts.
type wref struct {
	client, server   []string // up to when the call is cancelled
	ended, seenEnd   bool     // before the call was cancelled
	terminal         string
	cancelled        string // how, if it was while the client was still interested
	clientN, serverN int    // steps before the call was cancelled
	header, trailer  string
	allHeaders       []string
	dead             bool // the scripts rely on buffers or wait for each other
}

func codeNum(name string) int64 {
	for i, n := range codeNames {
		if n == name {
			return int64(i)
		}
	}
	panic("code " + name)
}

const (
	wCanceled = "end Canceled: context canceled"
	wDeadline = "end DeadlineExceeded: context deadline exceeded"
)

func mdText(kv []string) string {
	m := map[string][]string{}
	for _, x := range kv {
		k, v, _ := strings.Cut(x, "=")
		m[k] = append(m[k], v)
	}
	var r []string
	for _, k := range sortedKeys(m) {
		r = append(r, k+"="+strings.Join(m[k], "|"))
	}
	return strings.Join(r, ",")
}

func sentOne(client []string) bool {
	for _, x := range client {
		if strings.HasPrefix(x, "send ") {
			return true
		}
	}
	return false
}

// wrefOf executes a pair of scripts: a step is taken when both sides are ready for it.
func wrefOf(server, client []wop, single, unary, oneReq bool) *wref {
	r := &wref{}
	var header, trailer []string
	headerSent, closed := false, false
	sent, received := 0, 0 // messages, by the server and by the client
	si, ci := 0, 0
	sc, cc := 0, 0 // messages sent by the client, received by the server
	gotOne := false
	// how far each side knows the other to have come
	serverKnown, clientKnown := 0, 0
	joinHeader := func() string { return mdText(header) }
	endOf := func(op wop) string {
		switch op.kind {
		case "ok":
			return "end OK"
		case "E":
			return "end " + op.a + ": " + op.b
		case "P":
			return "end Unknown: " + op.a
		case "C":
			return wCanceled
		case "D":
			return wDeadline
		}
		panic("no end: " + op.kind)
	}
	flush := func() { headerSent = true }
	cancel := func(kind string) bool {
		if r.seenEnd {
			return false
		}
		r.cancelled = wCanceled
		if kind == "d" {
			r.cancelled = wDeadline
		}
		return true
	}
	finish := func() *wref {
		r.clientN, r.serverN = ci, si
		r.header, r.trailer = "header "+joinHeader(), "trailer "+mdText(trailer)
		return r
	}
	for {
		progress := false
		// the server
		for !r.ended {
			if unary && sc == 0 && (ci >= len(client) || client[ci].kind != "s") && len(r.client) == 0 {
				break // handlers of unary calls start with the request
			}
			op := server[si]
			moved := true
			switch op.kind {
			case "h", "H", "g":
				if headerSent {
					r.server = append(r.server, "header refused")
				} else {
					if op.a != "" {
						header = append(header, op.a)
					}
					r.server = append(r.server, "header ok")
					if op.kind == "H" {
						flush()
					}
				}
			case "t":
				trailer = append(trailer, op.a)
			case "r", "R":
				if ci < len(client) && client[ci].kind == "s" && !closed {
					r.client = append(r.client, "send ok")
					r.server = append(r.server, fmt.Sprintf("msg c%d", cc))
					sc++
					cc++
					ci++
					progress = true
					if op.kind == "r" {
						si++
					}
					clientKnown = len(r.client)
					continue
				}
				if closed {
					r.server = append(r.server, "EOF")
				} else {
					moved = false
				}
			case "s":
				flush()
				if ci < len(client) && (client[ci].kind == "r" || client[ci].kind == "R") && !gotOne {
					r.server = append(r.server, "send ok")
					sent++
					if single {
						gotOne = true
					} else {
						r.client = append(r.client, fmt.Sprintf("msg s%d", received))
						received++
						if client[ci].kind == "r" {
							ci++
						}
					}
					progress = true
					serverKnown = len(r.server)
				} else {
					moved = false
				}
			case "w":
				moved = false
			case "x", "d":
				if cancel(op.kind) {
					// a server that doesn't wait for it may end the call before anyone notices
					// and messages may be lost
					r.client = r.client[:clientKnown]
					waits := false
					for _, o := range server[si:] {
						waits = waits || o.kind == "w"
					}
					if last := server[len(server)-1]; !waits {
						r.ended, r.terminal = true, endOf(last)
					}
					return finish()
				}
			default:
				r.ended = true
				r.terminal = endOf(op)
				if len(header) > 0 {
					headerSent = true
				}
			}
			if !moved {
				break
			}
			if !r.ended {
				si++
			}
			progress = true
		}
		if ci == len(client) {
			if !progress || r.ended {
				if !r.ended {
					// the server is left alone
					r.dead = true
				}
				return finish()
			}
			continue
		}
		op := client[ci]
		moved := true
		switch op.kind {
		case "s":
			switch {
			case (closed || oneReq && len(r.client) > 0 && sentOne(r.client)) && !r.seenEnd:
				r.dead = true // a mistake of the client that ends the call
				return finish()
			case closed:
				r.client = append(r.client, "send Internal")
			case r.ended:
				r.client = append(r.client, "send any")
			default:
				moved = false
			}
		case "c":
			closed = true
			r.client = append(r.client, "close ok")
		case "H":
			switch {
			case headerSent:
				r.client = append(r.client, "header "+joinHeader())
			case r.ended:
				r.client = append(r.client, "header ")
			default:
				moved = false
			}
		case "T":
			if !r.seenEnd {
				r.dead = true
				return finish()
			}
			r.client = append(r.client, "trailer "+mdText(trailer))
		case "r", "R":
			switch {
			case single && gotOne && r.ended && !r.seenEnd:
				r.seenEnd = true
				if r.terminal == "end OK" {
					r.client = append(r.client, fmt.Sprintf("msg s%d", received))
					received++
				} else {
					r.client = append(r.client, r.terminal)
				}
			case single && !gotOne && r.ended && r.terminal == "end OK" && !r.seenEnd:
				r.seenEnd = true
				r.client = append(r.client, "no response")
			case single && r.seenEnd:
				r.dead = true
				return finish()
			case r.ended:
				r.seenEnd = true
				r.client = append(r.client, r.terminal)
			default:
				moved = false
			}
		case "x", "d":
			if cancel(op.kind) {
				// the server may not have got as far yet
				r.server = r.server[:serverKnown]
				r.serverN = si
				// or farther, were its messages buffered
				blocks := false
				for _, o := range server[si:] {
					blocks = blocks || o.kind == "w" || (o.kind == "r" || o.kind == "R") && !closed
				}
				if !blocks && !r.ended {
					r.ended, r.terminal = true, endOf(server[len(server)-1])
				}
				return finish()
			}
			r.client = append(r.client, "gave up")
		default:
			panic("client step " + op.kind)
		}
		if moved {
			ci++
			progress = true
		}
		if !progress {
			r.dead = true
			return finish()
		}
	}
}

// wcall is a call that is made for real.
type wcall struct {
	s              *Scn
	server, client []wop
	ref            *wref
	streamT, unary bool
	ctx            Val
	method         string
	trS, trC       []string
	done, served   bool
	srvCtx         Val
	serverHas      []wmsg
	clientHas      []wmsg
	req, resp      types.Type // of the client
	sreq, sresp    types.Type // of the server
	md             Val
	viaStream      bool
	sent           []wmsg
}

type wmsg struct {
	v    Val
	want string
	what string
}

type wrun struct {
	s     *Scn
	conn  Val
	srv   Val
	calls map[string]*wcall // by method
	sts   map[string]Val    // by context
	in    map[string]Val    // incoming metadata
	out   Val               // outgoing metadata
}

const wService = "smartcore.test.Svc"

// shapes of calls: server streams, client streams
var wShapes = []struct {
	name             string
	server, client   bool
	unary, viaStream bool
}{
	{"Invoke", false, false, true, false},
	{"Unary", false, false, true, true},
	{"ServerStream", true, false, false, false},
	{"ClientStream", false, true, false, false},
	{"BidiStream", true, true, false, false},
}

func (s *Scn) mdOf(v Val) map[string][]string {
	r := map[string][]string{}
	v = s.P.Resolve(v)
	if iv, ok := v.(absint.IfaceV); ok {
		v = s.P.Resolve(iv.V)
	}
	if absint.IsNilConst(v) {
		return r
	}
	m := s.P.MapOf(v)
	if m == nil || m.Base != "" {
		s.P.Stuck("metadata %s", absint.Key(v))
	}
	for _, e := range m.Entries {
		if !e.Present {
			continue
		}
		k := s.str(e.Key)
		for _, x := range s.list(e.Cell.Load()) {
			r[k] = append(r[k], s.str(x))
		}
		if r[k] == nil {
			r[k] = []string{}
		}
	}
	return r
}

func (s *Scn) mkMD(m map[string][]string) Val {
	t := s.mdType()
	v := s.P.MkMap(t, "md")
	for _, k := range sortedKeys(m) {
		var es []Val
		for _, x := range m[k] {
			es = append(es, absint.MkString(x))
		}
		s.P.MapPut(v, absint.MkString(k), s.P.MkSlice(types.NewSlice(types.Typ[types.String]), "mdv", es...))
	}
	return v
}

func (s *Scn) mdString(v Val) string {
	m := s.mdOf(v)
	var r []string
	for _, k := range sortedKeys(m) {
		r = append(r, k+"="+strings.Join(m[k], "|"))
	}
	return strings.Join(r, ",")
}

func (s *Scn) mdFrom(kv string) Val {
	k, v, _ := strings.Cut(kv, "=")
	if kv == "" {
		return s.mkMD(nil)
	}
	return s.mkMD(map[string][]string{k: {v}})
}

// errText describes how a call ended.
func (s *Scn) errText(e Val) string {
	e = s.P.Resolve(e)
	if absint.IsNilConst(e) {
		return "nil"
	}
	if absint.Key(absint.Unwrap(e)) == absint.Key(absint.Unwrap(s.extGlobal("io", "EOF"))) {
		return "end OK"
	}
	var text func(v Val) string
	text = func(v Val) string {
		v = s.P.Resolve(v)
		if t, ok := absint.StringConst(v); ok {
			return t
		}
		sym, ok := absint.Unwrap(v).(*absint.Sym)
		if !ok {
			return absint.Key(v)
		}
		switch {
		case sym.Key == "global:context.Canceled":
			return "context canceled"
		case sym.Key == "global:context.DeadlineExceeded":
			return "context deadline exceeded"
		case sym.Key == "global:io.EOF":
			return "EOF"
		case sym.Op == "errors.New" || sym.Op == "Error":
			return text(sym.Args[0])
		}
		return stripIDs(sym.Key)
	}
	sym, ok := absint.Unwrap(e).(*absint.Sym)
	if !ok || sym.Op != "status.Error" {
		return "end (not a status) " + text(e)
	}
	n, ok := absint.IntConst(s.P.Resolve(sym.Args[0]))
	if !ok {
		return "end " + absint.Key(sym.Args[0])
	}
	return "end " + codeName(n) + ": " + text(sym.Args[1])
}

// c13Cfg makes what the wrapper uses from grpc work.
func c13Cfg() *absint.Config {
	cfg := tmCfg(&absint.Config{Threads: true, NoTimers: true, MaxSteps: 2000000, MaxLoop: 60})
	run := func(c *absint.Call) *wrun { r, _ := c.P.Data["wrun"].(*wrun); return r }
	h := cfg.Hooks
	h["reflect.TypeOf"] = func(c *absint.Call) (Val, bool) {
		return c.P.NonNilSym(c.P.Fresh("rtype"), resType(c)), true
	}
	h["iface:(reflect.Type).Elem"] = func(c *absint.Call) (Val, bool) {
		return c.P.NonNilSym(c.P.Fresh("rtype"), resType(c)), true
	}
	h["iface:(reflect.Type).Implements"] = func(c *absint.Call) (Val, bool) {
		ok, set := c.P.Data["implements"].(bool)
		return absint.MkBool(ok || !set), true
	}
	md := grpcNS + "/metadata."
	h[md+"FromOutgoingContext"] = func(c *absint.Call) (Val, bool) {
		r := run(c)
		if r.out == nil {
			return absint.TupleV{absint.MkNil(r.s.mdType()), absint.MkBool(false)}, true
		}
		return absint.TupleV{r.s.mkMD(r.s.mdOf(r.out)), absint.MkBool(true)}, true
	}
	h[md+"NewIncomingContext"] = func(c *absint.Call) (Val, bool) {
		r := run(c)
		ctx := c.P.DeriveCtx(c.Args[0], "incoming")
		r.in[absint.Key(ctx)] = c.Args[1]
		return ctx, true
	}
	h[md+"Join"] = func(c *absint.Call) (Val, bool) {
		s := run(c).s
		m := map[string][]string{}
		for _, x := range s.list(c.Args[0]) {
			one := s.mdOf(x)
			for k, v := range one {
				m[k] = append(m[k], v...)
			}
		}
		return s.mkMD(m), true
	}
	h["("+md+"MD).Copy"] = func(c *absint.Call) (Val, bool) {
		s := run(c).s
		return s.mkMD(s.mdOf(c.Args[0])), true
	}
	h["("+md+"MD).Len"] = func(c *absint.Call) (Val, bool) {
		return absint.MkInt(int64(len(run(c).s.mdOf(c.Args[0])))), true
	}
	encoded := func(c *absint.Call) (Val, bool) {
		m := c.P.CloneMsg(c.Args[0])
		b := c.P.NonNilSym(c.P.Fresh("encoded"), types.NewSlice(types.Typ[types.Byte]))
		c.P.Data["encoded:"+absint.Key(b)] = m
		return absint.TupleV{b, absint.MkNil(errType)}, true
	}
	decode := func(c *absint.Call, bytes, dst Val, merge bool) (Val, bool) {
		src, ok := c.P.Data["encoded:"+absint.Key(c.P.Resolve(bytes))].(Val)
		if !ok {
			return nil, false
		}
		if !merge {
			c.P.ResetMsg(dst)
		}
		// the same numbers are the same fields
		a, d := tmStruct(c.P, src), tmStruct(c.P, dst)
		for _, f := range tmFields(a.T) {
			if x, has := tmGet(c.P, a, f); has {
				for _, g := range tmFields(d.T) {
					if g.name == f.name && g.kind == f.kind {
						d.Field(g.idx).Set(c.P, c.P.CloneDeep(x))
					}
				}
			}
		}
		return absint.MkNil(errType), true
	}
	const pb = "google.golang.org/protobuf/proto"
	h[pb+".Marshal"] = encoded
	h["("+pb+".MarshalOptions).Marshal"] = func(c *absint.Call) (Val, bool) {
		c.Args = c.Args[1:]
		return encoded(c)
	}
	h[pb+".Unmarshal"] = func(c *absint.Call) (Val, bool) { return decode(c, c.Args[0], c.Args[1], false) }
	h["("+pb+".UnmarshalOptions).Unmarshal"] = func(c *absint.Call) (Val, bool) {
		merge := false
		if sv, ok := c.P.Resolve(c.Args[0]).(*absint.StructV); ok {
			st := sv.T.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "Merge" {
					merge, _ = absint.BoolConst(c.P.Resolve(sv.Field(i).Load()))
				}
			}
		}
		return decode(c, c.Args[1], c.Args[2], merge)
	}
	h[grpcNS+".NewContextWithServerTransportStream"] = func(c *absint.Call) (Val, bool) {
		r := run(c)
		ctx := c.P.DeriveCtx(c.Args[0], "sts")
		r.sts[absint.Key(ctx)] = c.Args[1]
		return ctx, true
	}
	return cfg
}

// ancestor finds what was attached to a context or what it's derived from.
func (s *Scn) ancestor(ctx Val, m map[string]Val) Val {
	for {
		if v, ok := m[absint.Key(s.P.Resolve(ctx))]; ok {
			return v
		}
		sym, ok := absint.Unwrap(s.P.Resolve(ctx)).(*absint.Sym)
		if !ok || len(sym.Args) == 0 {
			return nil
		}
		ctx = sym.Args[0]
	}
}

func (s *Scn) anyOf(v Val) Val {
	if _, ok := v.(absint.IfaceV); ok {
		return v
	}
	return absint.IfaceV{T: types.NewPointer(s.P.Deref(v).Load0().(*absint.StructV).T), V: v}
}

// newWrun wraps a server with a method of each shape.
func (s *Scn) newWrun() *wrun {
	c := s.C
	r := &wrun{s: s, calls: map[string]*wcall{}, sts: map[string]Val{}, in: map[string]Val{}}
	s.P.Data["wrun"] = r
	r.srv = s.opaque("srv", types.NewInterfaceType(nil, nil))
	serverStream := c.ExtType(grpcNS, "ServerStream")
	checkSrv := func(v Val) {
		if absint.Key(s.P.Resolve(v)) != absint.Key(r.srv) {
			s.Fail("the handler gets another server: %s", absint.Key(v))
		}
	}
	mt, st, dt := c.ExtType(grpcNS, "MethodDesc"), c.ExtType(grpcNS, "StreamDesc"), c.ExtType(grpcNS, "ServiceDesc")
	desc := s.P.Alloc(dt, "desc")
	s.SetField(desc, "ServiceName", absint.MkString(wService))
	s.SetField(desc, "HandlerType", s.opaque("handlerType", types.NewInterfaceType(nil, nil)))
	s.SetField(desc, "Metadata", absint.MkNil(types.NewInterfaceType(nil, nil)))
	var ms, ss []Val
	for _, sh := range wShapes {
		sh := sh
		call := func() *wcall {
			w := r.calls[sh.name]
			if sh.unary {
				w = r.calls["Unary"]
			}
			if w == nil {
				s.Fail("%s is called", sh.name)
				s.Stop("no call of %s", sh.name)
			}
			return w
		}
		if sh.unary {
			if sh.name != "Unary" {
				continue
			}
			d := s.P.Alloc(mt, "methodDesc")
			s.SetField(d, "MethodName", absint.MkString("Unary"))
			s.SetField(d, "Handler", s.Native("handler of Unary", func(args []Val) Val {
				checkSrv(args[0])
				if !absint.IsNilConst(s.P.Resolve(args[3])) {
					s.Fail("there is an interceptor")
				}
				w := call()
				return w.serveUnary(r, args[1], args[2])
			}))
			ms = append(ms, s.P.Deref(d).Load0())
			continue
		}
		d := s.P.Alloc(st, "streamDesc")
		s.SetField(d, "StreamName", absint.MkString(sh.name))
		s.SetField(d, "ServerStreams", absint.MkBool(sh.server))
		s.SetField(d, "ClientStreams", absint.MkBool(sh.client))
		s.SetField(d, "Handler", s.Native("handler of "+sh.name, func(args []Val) Val {
			checkSrv(args[0])
			w := call()
			stream := args[1]
			ctx := s.invoke(stream, serverStream, "Context")[0]
			return w.serve(r, ctx, &wend{
				recv: func(m Val) Val { return s.invoke(stream, serverStream, "RecvMsg", m)[0] },
				send: func(m Val) Val { return s.invoke(stream, serverStream, "SendMsg", m)[0] },
				set:  func(md Val) Val { return s.invoke(stream, serverStream, "SetHeader", md)[0] },
				head: func(md Val) Val { return s.invoke(stream, serverStream, "SendHeader", md)[0] },
				tail: func(md Val) { s.invoke(stream, serverStream, "SetTrailer", md) },
			})
		}))
		ss = append(ss, s.P.Deref(d).Load0())
	}
	s.SetField(desc, "Methods", s.P.MkSlice(types.NewSlice(mt), "methods", ms...))
	s.SetField(desc, "Streams", s.P.MkSlice(types.NewSlice(st), "streams", ss...))
	r.conn = s.F(wrapPkg, "ServerToClient", s.P.Deref(desc).Load0(), r.srv)
	return r
}

// wend is the server's end of a call.
type wend struct {
	recv, send, set, head func(v Val) Val
	tail                  func(v Val)
}

func (w *wcall) msg(t types.Type, text string) Val {
	if richMsg(t) {
		seg := map[string]any{"magnitude": 1, "length": map[string]any{"seconds": 5}}
		return w.s.anyOf(w.s.build(t, map[string]any{"title": text, "segments": []any{seg, map[string]any{"magnitude": 2}}}))
	}
	return w.s.anyOf(w.s.build(t, map[string]any{"msg": text}))
}

// used is the destination of a message, which has been used before.
func (w *wcall) used(t types.Type) Val {
	if richMsg(t) {
		return w.s.anyOf(w.s.build(t, map[string]any{"title": "used", "description": "used", "segments": []any{map[string]any{"magnitude": 3}}}))
	}
	f := map[string]any{"msg": "used"}
	for _, k := range tmFields(t) {
		if k.name == "simulate_error" {
			f["simulate_error"] = "used"
		}
	}
	return w.s.anyOf(w.s.build(t, f))
}

func (w *wcall) text(v Val) string {
	v = w.s.P.Resolve(v)
	if iv, ok := v.(absint.IfaceV); ok {
		v = iv.V
	}
	return w.s.render(v)
}

func richMsg(t types.Type) bool { return t.(*types.Named).Obj().Name() == "ElectricMode" }

func (w *wcall) setText(v Val, text string) {
	if iv, ok := v.(absint.IfaceV); ok {
		v = iv.V
	}
	w.s.SetField(v, "Msg", absint.MkString(text))
}

// spoil changes a message once it's theirs.
func (w *wcall) spoil(v Val, what string) {
	if iv := v.(absint.IfaceV); richMsg(pointee(iv.T)) {
		// everything it consists of
		for _, seg := range w.s.list(w.s.Field(iv.V, "Segments")) {
			w.s.SetField(seg, "Magnitude", absint.MkFloat(types.Typ[types.Float32], 99))
			if l := w.s.Field(seg, "Length"); !absint.IsNilConst(w.s.P.Resolve(l)) {
				w.s.SetField(l, "Seconds", absint.MkInt(99))
			}
		}
		w.s.SetField(iv.V, "Title", absint.MkString("spoiled by "+what))
		w.sent = append(w.sent, wmsg{v: v, want: w.text(v), what: what})
		return
	}
	w.setText(v, "spoiled by "+what)
	w.sent = append(w.sent, wmsg{v: v, want: w.text(v), what: what})
}

// outcomes of receiving
func (w *wcall) received(v, err Val, prefix string, n int, t types.Type) string {
	if !absint.IsNilConst(w.s.P.Resolve(err)) {
		return w.s.errText(err)
	}
	want := w.text(w.msg(t, fmt.Sprintf("%s%d", prefix, n)))
	if got := w.text(v); got != want {
		return "msg " + got + " (want " + want + ")"
	}
	return fmt.Sprintf("msg %s%d", prefix, n)
}

func (w *wcall) serveUnary(r *wrun, ctx, dec Val) Val {
	s := w.s
	stsT := s.C.ExtType(grpcNS, "ServerTransportStream")
	sts := s.ancestor(ctx, r.sts)
	if sts == nil {
		s.Fail("grpc.SetHeader doesn't work in the handler")
		s.Stop("no transport stream")
	}
	if m := s.invoke(sts, stsT, "Method")[0]; s.str(s.P.Resolve(m)) != w.method {
		s.Fail("grpc.Method gives %s, want %s", absint.Key(m), w.method)
	}
	var resp Val
	err := w.serve(r, ctx, &wend{
		recv: func(m Val) Val { return s.callV(dec, m)[0] },
		send: func(m Val) Val { resp = m; return absint.MkNil(errType) },
		set:  func(md Val) Val { return s.invoke(sts, stsT, "SetHeader", md)[0] },
		head: func(md Val) Val { return s.invoke(sts, stsT, "SendHeader", md)[0] },
		tail: func(md Val) { s.invoke(sts, stsT, "SetTrailer", md) },
	})
	if !absint.IsNilConst(s.P.Resolve(err)) || resp == nil {
		return absint.TupleV{absint.MkNil(types.NewInterfaceType(nil, nil)), err}
	}
	return absint.TupleV{resp, err}
}

func (w *wcall) serve(r *wrun, ctx Val, e *wend) Val {
	s := w.s
	w.srvCtx = ctx
	defer func() { w.served = true }()
	nilErr := absint.MkNil(errType)
	got, sent := 0, 0
	note := func(f string, a ...any) { w.trS = append(w.trS, fmt.Sprintf(f, a...)) }
	in := s.ancestor(ctx, r.in)
	if in == nil {
		s.Fail("there's no incoming metadata")
	} else {
		want := ""
		if w.md != nil {
			want = s.mdString(w.md)
		}
		if a := s.mdString(in); a != want {
			s.Fail("the server gets the metadata %s, want %s", a, want)
		}
	}
	outcome := func(err Val) string {
		if absint.IsNilConst(s.P.Resolve(err)) {
			return "ok"
		}
		return strings.TrimPrefix(s.errText(err), "end ")
	}
	for _, op := range w.server {
		switch op.kind {
		case "r", "R":
			for {
				m := w.used(w.sreq)
				err := e.recv(m)
				x := w.received(m, err, "c", got, w.sreq)
				if x == "end OK" {
					note("EOF")
					break
				}
				note("%s", x)
				if !absint.IsNilConst(s.P.Resolve(err)) {
					return err
				}
				got++
				w.spoil(m, "the server, having received it")
				if op.kind == "r" {
					break
				}
			}
		case "s":
			m := w.msg(w.sresp, fmt.Sprintf("s%d", sent))
			err := e.send(m)
			note("send %s", outcome(err))
			if !absint.IsNilConst(s.P.Resolve(err)) {
				return err
			}
			sent++
			if !w.unary {
				w.spoil(m, "the server, having sent it")
			}
		case "h", "g", "H":
			f := e.set
			if op.kind == "H" {
				f = e.head
			}
			if op.kind == "g" {
				sts := s.ancestor(ctx, r.sts)
				if sts == nil {
					s.Fail("grpc.SetHeader doesn't work in the handler")
					s.Stop("no transport stream")
				}
				f = func(md Val) Val {
					return s.invoke(sts, s.C.ExtType(grpcNS, "ServerTransportStream"), "SetHeader", md)[0]
				}
			}
			md := s.mdFrom(op.a)
			if err := f(md); absint.IsNilConst(s.P.Resolve(err)) {
				note("header ok")
			} else {
				note("header refused")
			}
			s.P.MapPut(md, absint.MkString("late"), s.P.MkSlice(types.NewSlice(types.Typ[types.String]), "mdv", absint.MkString("late")))
		case "t":
			e.tail(s.mdFrom(op.a))
		case "w":
			s.P.WaitFor("the context ends", func() bool { return s.P.CtxErr(ctx) != "" })
		case "x":
			s.P.CancelCtx(w.ctx)
		case "d":
			s.P.ExpireCtx(w.ctx)
		case "ok":
			return nilErr
		case "E":
			return s.P.MkErr(absint.MkInt(codeNum(op.a)), absint.MkString(op.b))
		case "P":
			return &absint.Sym{Key: s.P.Fresh("errors.New"), T: errType, Op: "errors.New", Args: []Val{absint.MkString(op.a)}, NonNil: true}
		case "C":
			return s.extGlobal("context", "Canceled")
		case "D":
			return s.extGlobal("context", "DeadlineExceeded")
		}
	}
	return nilErr
}

// newCall is a call with a context of its own.
func (r *wrun) newCall(shape, server, client string) *wcall {
	s := r.s
	w := &wcall{s: s, server: wops(server), client: wops(client), method: "/" + wService + "/" + shape}
	for _, sh := range wShapes {
		if sh.name == shape {
			w.ref = wrefOf(w.server, w.client, !sh.server, sh.unary, !sh.client)
			w.unary, w.viaStream = sh.unary, sh.viaStream
		}
	}
	if shape == "Invoke" {
		w.method = "/" + wService + "/Unary"
		shape = "Unary"
	}
	w.req, w.resp = s.C.Type(testprotoPkg, "BidiStreamRequest"), s.C.Type(testprotoPkg, "BidiStreamResponse")
	w.sreq, w.sresp = w.req, w.resp
	w.ctx = s.Ctx("ctx of " + shape)
	r.calls[shape] = w
	return w
}

func (r *wrun) callOptT() types.Type { return types.NewSlice(r.s.C.ExtType(grpcNS, "CallOption")) }

// run is what the client does.
func (w *wcall) run(r *wrun, shape string) {
	s := w.s
	note := func(f string, a ...any) { w.trC = append(w.trC, fmt.Sprintf(f, a...)) }
	connT := s.C.ExtType(grpcNS, "ClientConnInterface")
	if w.unary && !w.viaStream {
		mdT := s.mdType()
		hdr, tlr := s.P.Alloc(mdT, "hdr"), s.P.Alloc(mdT, "tlr")
		opt := func(name, field string, v Val) Val {
			t := s.C.ExtType(grpcNS, name)
			o := s.P.Alloc(t, name)
			s.SetField(o, field, v)
			return absint.IfaceV{T: t, V: s.P.Deref(o).Load0()}
		}
		opts := s.P.MkSlice(r.callOptT(), "opts", opt("HeaderCallOption", "HeaderAddr", hdr), opt("TrailerCallOption", "TrailerAddr", tlr))
		req, reply := w.msg(w.req, "c0"), w.used(w.resp)
		err := s.invoke(r.conn, connT, "Invoke", w.ctx, absint.MkString(w.method), req, reply, opts)[0]
		note("%s", w.received(reply, err, "s", 0, w.resp))
		w.spoil(req, "the client, having sent it")
		if absint.IsNilConst(s.P.Resolve(err)) {
			w.spoil(reply, "the client, having received it")
		}
		note("header %s", s.mdString(s.P.Deref(hdr).Load()))
		note("trailer %s", s.mdString(s.P.Deref(tlr).Load()))
		w.done = true
		return
	}
	dt := s.C.ExtType(grpcNS, "StreamDesc")
	d := s.P.Alloc(dt, "desc")
	for _, sh := range wShapes {
		if sh.name == shape {
			s.SetField(d, "StreamName", absint.MkString(sh.name))
			s.SetField(d, "ServerStreams", absint.MkBool(sh.server))
			s.SetField(d, "ClientStreams", absint.MkBool(sh.client))
		}
	}
	out := s.invoke(r.conn, connT, "NewStream", w.ctx, d, absint.MkString(w.method), absint.MkNil(r.callOptT()))
	if !absint.IsNilConst(s.P.Resolve(out[1])) {
		note("no stream: %s", s.errText(out[1]))
		w.done = true
		return
	}
	if r.out != nil {
		// the client is free to change its metadata now
		for _, e := range s.P.MapOf(r.out).Entries {
			vs, _ := s.P.SliceOf(e.Cell.Load())
			for i := vs.Lo; i < vs.Hi; i++ {
				vs.Arr.Cells[i].Set(s.P, absint.MkString("spoiled"))
			}
		}
	}
	st := out[0]
	cs := s.C.ExtType(grpcNS, "ClientStream")
	sent, got := 0, 0
	for _, op := range w.client {
		switch op.kind {
		case "s":
			m := w.msg(w.req, fmt.Sprintf("c%d", sent))
			err := s.invoke(st, cs, "SendMsg", m)[0]
			x := s.errText(err)
			switch {
			case x == "nil":
				x = "ok"
				sent++
			case x == "end OK":
				x = "EOF"
			case strings.HasPrefix(x, "end Internal"):
				x = "Internal"
			}
			note("send %s", x)
			w.spoil(m, "the client, having sent it")
		case "c":
			err := s.invoke(st, cs, "CloseSend")[0]
			if absint.IsNilConst(s.P.Resolve(err)) {
				note("close ok")
			} else {
				note("close %s", s.errText(err))
			}
		case "H":
			out := s.invoke(st, cs, "Header")
			if !absint.IsNilConst(s.P.Resolve(out[1])) {
				note("header error %s", s.errText(out[1]))
			} else {
				note("header %s", s.mdString(out[0]))
			}
		case "r", "R":
			for {
				m := w.used(w.resp)
				err := s.invoke(st, cs, "RecvMsg", m)[0]
				note("%s", w.received(m, err, "s", got, w.resp))
				if !absint.IsNilConst(s.P.Resolve(err)) {
					break
				}
				got++
				w.spoil(m, "the client, having received it")
				if op.kind == "r" || got > 20 {
					break
				}
			}
		case "T":
			note("trailer %s", s.mdString(s.invoke(st, cs, "Trailer")[0]))
		case "x":
			s.P.CancelCtx(w.ctx)
			note("gave up")
		case "d":
			s.P.ExpireCtx(w.ctx)
			note("gave up")
		}
	}
	w.done = true
}

// check compares what happened with what happens over real gRPC.
func (w *wcall) check(name string) {
	s := w.s
	ref := w.ref
	tell := func(format string, a ...any) {
		s.Fail("%s: %s (the client saw %v; the server saw %v; over gRPC %v and %v)", name, fmt.Sprintf(format, a...), w.trC, w.trS, ref.client, ref.server)
	}
	if !w.done {
		tell("the client waits forever")
		return
	}
	if !w.served && (ref.ended || ref.cancelled != "") && !(ref.cancelled != "" && w.srvCtx == nil) {
		tell("the handler waits forever")
		return
	}
	for _, t := range s.P.Live() {
		if !strings.HasPrefix(t.Name, "env") {
			tell("goroutine started by %s is left behind, waiting for %s", t.StartedBy(), stripIDs(t.Waiting()))
		}
	}
	if w.srvCtx != nil && s.P.CtxErr(w.srvCtx) == "" {
		tell("the context of the server isn't done when the call is")
	}
	for _, m := range w.sent {
		if got := w.text(m.v); got != m.want {
			tell("a message of %s is changed to %s", m.what, got)
		}
	}
	wantC := append([]string{}, ref.client...)
	trC := w.trC
	if w.unary && !w.viaStream {
		// sending and closing aren't visible
		var v []string
		for _, x := range wantC {
			if !strings.HasPrefix(x, "send ") && x != "close ok" {
				v = append(v, x)
			}
		}
		wantC = v
	}
	is := func(got, want string) bool {
		switch want {
		case "send any":
			return got == "send ok" || got == "send EOF"
		case "no response":
			return got == "end OK" || strings.HasPrefix(got, "end Internal")
		}
		return got == want
	}
	for i, want := range wantC {
		if i >= len(trC) {
			tell("step %d of the client is missing", i)
			return
		}
		if !is(trC[i], want) {
			tell("step %d of the client is %q, want %q", i, trC[i], want)
			return
		}
	}
	for i, want := range ref.server {
		if i >= len(w.trS) || w.trS[i] != want {
			tell("step %d of the server isn't %q", i, want)
			return
		}
	}
	if ref.cancelled == "" {
		if len(trC) != len(wantC) || len(w.trS) != len(ref.server) {
			tell("there is more")
		}
		return
	}
	// messages go on in order, until the client sees that it cancelled
	n := 0
	for _, x := range wantC {
		if strings.HasPrefix(x, "msg s") {
			n++
		}
	}
	end := ""
	for i := len(wantC); i < len(trC); i++ {
		x := trC[i]
		switch {
		case strings.HasPrefix(x, "send "), x == "close ok", x == "gave up":
			if strings.HasPrefix(x, "send ") && x != "send ok" && x != "send EOF" && x != "send Internal" {
				tell("step %d of the client: %s after the call was cancelled", i, x)
			}
		case strings.HasPrefix(x, "header"):
			if !mdWithin(x, ref, w.server) {
				tell("step %d of the client: %s", i, x)
			}
		case strings.HasPrefix(x, "trailer"):
			if strings.Contains(x, "=") && !trailersWithin(x, w.server) {
				tell("step %d of the client: %s", i, x)
			}
		case strings.HasPrefix(x, "msg "):
			if x != fmt.Sprintf("msg s%d", n) || end != "" {
				tell("step %d of the client is %q", i, x)
			}
			n++
		case strings.HasPrefix(x, "end "), strings.HasPrefix(x, "no stream: end "):
			x = strings.TrimPrefix(x, "no stream: ")
			if x != ref.cancelled && !(ref.ended && is(x, terminalOf(ref, w))) {
				tell("the call ends with %q, want %q", x, ref.cancelled)
			}
			end = x
		default:
			tell("step %d of the client is %q", i, x)
		}
	}
	for i := len(ref.server); i < len(w.trS); i++ {
		if x := w.trS[i]; strings.HasPrefix(x, "end ") && x != ref.cancelled {
			tell("the server sees %q, want %q", x, ref.cancelled)
		}
	}
}

func terminalOf(ref *wref, w *wcall) string {
	return ref.terminal
}

// mdWithin reports whether a header is a part of what the server sets.
func mdWithin(x string, ref *wref, server []wop) bool {
	x = strings.TrimPrefix(x, "header ")
	if x == "" {
		return true
	}
	var kv []string
	for _, op := range server {
		if op.kind == "h" || op.kind == "H" || op.kind == "g" {
			kv = append(kv, op.a)
			if x == mdText(kv) {
				return true
			}
		}
	}
	return false
}

func trailersWithin(x string, server []wop) bool {
	x = strings.TrimPrefix(x, "trailer ")
	var kv []string
	for _, op := range server {
		if op.kind == "t" {
			kv = append(kv, op.a)
			if x == mdText(kv) {
				return true
			}
		}
	}
	return false
}

// wscript is a pair of scripts.
type wscript struct{ shape, server, client string }

// wscripts enumerates pairs of scripts.
func wscripts(thorough bool) []wscript {
	var r []wscript
	seen := map[wscript]bool{}
	add := func(shape, server, client string) {
		w := wscript{shape, strings.Join(strings.Fields(server), " "), strings.Join(strings.Fields(client), " ")}
		if seen[w] {
			return
		}
		seen[w] = true
		if shape == "Invoke" || shape == "Unary" {
			// the response is what the handler returns
			f := strings.Fields(w.server)
			for i, x := range f {
				if x == "s" && (i != len(f)-2 || f[len(f)-1] != "ok" && strings.ContainsAny(w.client+" ", "xd")) {
					return
				}
			}
		}
		for _, sh := range wShapes {
			if sh.name == shape && wrefOf(wops(w.server), wops(w.client), !sh.server, sh.unary, !sh.client).dead {
				return
			}
		}
		r = append(r, w)
	}
	ends := []string{"ok", "E:NotFound:gone", "P:plain", "C", "D", "P:EOF"}
	few := []string{"ok", "E:NotFound:gone"}
	heads := []string{"h:a=1", "H:a=1", "g:a=1", "h:a=1 h:a=2 h:b=3", "h:a=1 H:b=2", "H:a=1 h:b=2", "H:"}
	join := strings.Join
	// insert puts a step at each position
	insert := func(steps []string, x string) [][]string {
		var out [][]string
		for i := 0; i <= len(steps); i++ {
			var v []string
			v = append(v, steps[:i]...)
			v = append(v, x)
			v = append(v, steps[i:]...)
			out = append(out, v)
		}
		return out
	}
	rep := func(x string, n int) []string {
		var v []string
		for i := 0; i < n; i++ {
			v = append(v, x)
		}
		return v
	}
	max := 2
	if thorough {
		max = 4
	}
	type base struct {
		shape          string
		server, client []string // without the end
	}
	var bases []base
	for _, sh := range []string{"Invoke", "Unary"} {
		bases = append(bases, base{sh, []string{"r", "s"}, []string{"s", "c", "r"}})
	}
	for n := 0; n <= max; n++ {
		bases = append(bases, base{"ServerStream", append([]string{"r"}, rep("s", n)...), []string{"s", "c", "R"}})
	}
	for n := 0; n <= max; n++ {
		bases = append(bases, base{"ClientStream", []string{"R", "s"}, append(rep("s", n), "c", "r")})
		if n > 0 {
			bases = append(bases, base{"ClientStream", append(rep("r", n), "s"), append(rep("s", n), "r")})
		}
	}
	for n := 0; n <= max; n++ {
		var s, c []string
		for i := 0; i < n; i++ {
			s = append(s, "r", "s")
			c = append(c, "s", "r")
		}
		bases = append(bases, base{"BidiStream", append(append([]string{}, s...), "r"), append(append([]string{}, c...), "c", "r")})
		bases = append(bases, base{"BidiStream", append([]string{"R"}, rep("s", n)...), append(rep("s", n), "c", "R")})
		bases = append(bases, base{"BidiStream", append(append([]string{}, rep("s", n)...), "R"), append(rep("r", n), "s", "c", "R")})
	}
	withMeta := func(b base, client []string) []string {
		if b.shape == "Invoke" {
			return append(append([]string{}, client...), "H", "T")
		}
		return append(append([]string{}, client...), "T")
	}
	for _, b := range bases {
		cl := join(withMeta(b, b.client), " ")
		sv := join(b.server, " ")
		// how it ends
		for _, e := range ends {
			add(b.shape, sv+" "+e, cl)
		}
		// an error at each position: the rest isn't done
		for i := 0; i < len(b.server); i++ {
			for _, e := range []string{"E:NotFound:gone", "P:plain", "ok"} {
				if e == "ok" && (b.shape == "Unary" || b.shape == "Invoke") {
					continue // there is no response
				}
				add(b.shape, join(b.server[:i], " ")+" t:z=9 "+e, cl)
				add(b.shape, join(b.server[:i], " ")+" h:a=1 "+e, cl)
			}
		}
		// headers and trailers
		for _, e := range few {
			for _, h := range heads {
				for _, v := range insert(b.server, h) {
					add(b.shape, join(v, " ")+" "+e, cl)
					if b.shape == "Invoke" {
						continue
					}
					for _, x := range insert(b.client, "H") {
						add(b.shape, join(v, " ")+" "+e, join(withMeta(b, x), " "))
					}
				}
			}
			for _, v := range insert(b.server, "t:z=9") {
				add(b.shape, join(v, " ")+" "+e, cl)
				add(b.shape, join(v, " ")+" t:z=8 t:y=7 h:a=1 "+e, cl)
			}
			if b.shape != "Invoke" {
				for _, x := range insert(b.client, "H") {
					add(b.shape, sv+" "+e, join(withMeta(b, x), " "))
				}
			}
		}
		if b.shape != "Invoke" {
			// after the end
			for _, e := range few {
				if b.shape == "ServerStream" || b.shape == "BidiStream" {
					add(b.shape, sv+" t:z=9 "+e, cl+" r r H T")
				}
				add(b.shape, sv+" t:z=9 h:a=1 "+e, cl+" x H T")
				add(b.shape, sv+" "+e, cl+" s c c")
			}
			for _, x := range insert(b.client, "s") {
				add(b.shape, sv+" ok", join(withMeta(b, x), " "))
			}
			for _, x := range insert(b.client, "c") {
				add(b.shape, sv+" ok", join(withMeta(b, x), " "))
			}
		}
		// cancel or deadline
		for _, x := range []string{"x", "d"} {
			for i := 0; i <= len(b.server); i++ {
				pre, post := join(b.server[:i], " "), join(b.server[i:], " ")
				for _, rest := range []string{"w ok", "w E:Aborted:cleanup", "w P:plain", "w C", post + " ok"} {
					if rest == "w ok" && (b.shape == "Unary" || b.shape == "Invoke") {
						rest = "w s ok"
					}
					add(b.shape, pre+" "+x+" "+rest, cl)
				}
				add(b.shape, pre+" h:a=1 t:z=9 "+x+" w E:Aborted:cleanup", cl)
				if b.shape == "Invoke" {
					continue
				}
				// the client does it while the server waits
				for j := 0; j <= len(b.client); j++ {
					cpre, cpost := join(b.client[:j], " "), join(b.client[j:], " ")
					if cpost == "" {
						cpost = "r"
					}
					for _, e := range []string{"w ok", "w E:Aborted:cleanup"} {
						if e == "w ok" && b.shape == "Unary" {
							e = "w s ok"
						}
						add(b.shape, pre+" "+e, cpre+" "+x+" "+cpost)
					}
					add(b.shape, pre+" H:a=1 w D", cpre+" H "+x+" "+cpost+" T")
				}
			}
			if b.shape != "Invoke" {
				for _, v := range insert(b.client, x) {
					add(b.shape, sv+" ok", join(v, " ")+" R")
					add(b.shape, sv+" E:NotFound:gone", join(v, " ")+" R")
				}
			}
		}
	}
	return r
}

func c13Scripts(c *Ctx) {
	pos := c.Fn(wrapPkg, "ServerToClient").Pos()
	scripts := wscripts(c.Tier == "thorough")
	c.Count("scripts", len(scripts))
	if len(scripts) < 500 {
		c.Undecided("scripts", "enumeration", pos, "only %d pairs of scripts", len(scripts))
	}
	groups := map[string][]wscript{}
	for _, w := range scripts {
		k := w.shape + "(" + w.server + ")"
		groups[k] = append(groups[k], w)
	}
	for _, k := range sortedKeys(groups) {
		g := groups[k]
		cfg := c13Cfg()
		if c.Tier == "thorough" {
			cfg.Preempt = 1
		}
		c.Explore("script", k, pos, cfg, func(s *Scn) {
			w := g[s.Pick("client", len(g))]
			s.script(w)
		})
	}
}

func (s *Scn) script(w wscript) {
	r := s.newWrun()
	wc := r.newCall(w.shape, w.server, w.client)
	wc.md = s.mkMD(map[string][]string{"k": {"v", "w"}})
	r.out = s.mkMD(map[string][]string{"k": {"v", "w"}})
	s.Go("client", func() { wc.run(r, w.shape) })
	s.P.Settle()
	wc.check(w.shape + " with client " + w.client)
}


// c13Schedules lets the sides of calls lose control anywhere.
func c13Schedules(c *Ctx) {
	pos := c.Fn(wrapPkg, "ServerToClient").Pos()
	for _, w := range []wscript{
		{"Invoke", "r h:a=1 t:z=9 s ok", "s c r H T"},
		{"Invoke", "r t:z=9 E:NotFound:gone", "s c r H T"},
		{"Invoke", "E:NotFound:gone", "s c r H T"},
		{"Invoke", "r x w s ok", "s c r H T"},
		{"Unary", "r s ok", "s c r T"},
		{"ServerStream", "r s h:a=1 s t:z=9 ok", "s c H R T"},
		{"ServerStream", "r s E:NotFound:gone", "s c R T"},
		{"ServerStream", "r h:a=1 E:NotFound:gone", "s c H R T"},
		{"ServerStream", "r s w E:Aborted:cleanup", "s c r x R T"},
		{"ClientStream", "R s ok", "s s c r T"},
		{"ClientStream", "r E:NotFound:gone", "s s c r T"},
		{"ClientStream", "R s E:NotFound:gone", "s c r T"},
		{"BidiStream", "r s r s r t:z=9 ok", "s r s r c R T"},
		{"BidiStream", "r s E:NotFound:gone", "s r s R T"},
		{"BidiStream", "r s r ok", "s r x s R"},
	} {
		w := w
		cfg := c13Cfg()
		cfg.Preempt = 1
		if c.Tier == "thorough" {
			cfg.Preempt = 2
		}
		c.Explore("schedule", w.shape+"("+w.server+") with client "+w.client, pos, cfg, func(s *Scn) { s.script(w) })
	}
}

// c13Shapes calls methods that aren't there, or aren't of that shape.
func c13Shapes(c *Ctx) {
	fn := c.Fn(wrapPkg, "ServerToClient")
	names := []string{"/" + wService + "/Nope", "/other.Svc/Unary", "Unary", "", "/" + wService + "/", wService + "/Unary", "/" + wService + "/unary"}
	for _, sh := range wShapes {
		names = append(names, "/"+wService+"/"+sh.name)
	}
	connOf := func(s *Scn) (types.Type, *wrun) { return s.C.ExtType(grpcNS, "ClientConnInterface"), s.newWrun() }
	shapeOf := func(name string) (int, bool) {
		for i, sh := range wShapes {
			if i > 0 && name == "/"+wService+"/"+sh.name {
				return i, true
			}
		}
		return 0, false
	}
	c.Explore("method", "Invoke", fn.Pos(), c13Cfg(), func(s *Scn) {
		name := names[s.Pick("method", len(names))]
		i, known := shapeOf(name)
		if known && wShapes[i].unary {
			return // it works
		}
		want := "Unimplemented"
		if known {
			want = "Internal"
		}
		connT, r := connOf(s)
		w := &wcall{s: s, req: c.Type(testprotoPkg, "BidiStreamRequest"), resp: c.Type(testprotoPkg, "BidiStreamResponse")}
		err := s.invoke(r.conn, connT, "Invoke", s.Ctx("ctx"), absint.MkString(name), w.msg(w.req, "c0"), w.used(w.resp), absint.MkNil(r.callOptT()))[0]
		if got := s.Code(err); got != want {
			s.Fail("Invoke of %q gives %s, want %s", name, got, want)
		}
		s.P.Settle()
		if n := len(s.P.Live()); n > 0 {
			s.Fail("Invoke of %q leaves %d goroutines behind", name, n)
		}
	})
	c.Explore("method", "NewStream", fn.Pos(), c13Cfg(), func(s *Scn) {
		name := names[s.Pick("method", len(names))]
		server, client := s.Bool("server streams"), s.Bool("client streams")
		i, known := shapeOf(name)
		want := "Unimplemented"
		if known {
			want = "Internal"
			if sh := wShapes[i]; sh.server == server && sh.client == client {
				return // it works
			}
		}
		connT, r := connOf(s)
		d := s.P.Alloc(s.C.ExtType(grpcNS, "StreamDesc"), "desc")
		s.SetField(d, "StreamName", absint.MkString("x"))
		s.SetField(d, "ServerStreams", absint.MkBool(server))
		s.SetField(d, "ClientStreams", absint.MkBool(client))
		out := s.invoke(r.conn, connT, "NewStream", s.Ctx("ctx"), d, absint.MkString(name), absint.MkNil(r.callOptT()))
		// over gRPC it's the stream that ends this way, callers of NewStream see either
		if got := s.Code(out[1]); got != want {
			s.Fail("NewStream(%q, server %v, client %v) gives %s, want %s", name, server, client, got, want)
		}
		s.P.Settle()
		if n := len(s.P.Live()); n > 0 {
			s.Fail("NewStream of %q leaves %d goroutines behind", name, n)
		}
	})
}


// c13Copies looks at what the sides have of each other's messages.
func c13Copies(c *Ctx) {
	pos := c.Fn(wrapPkg, "ServerToClient").Pos()
	scripts := []wscript{
		{"Invoke", "r s ok", "s c r H T"},
		{"Unary", "r s ok", "s c r T"},
		{"ServerStream", "r s s ok", "s c R T"},
		{"ClientStream", "R s ok", "s s c r T"},
		{"BidiStream", "r s r s r ok", "s r s r c R T"},
	}
	for _, rich := range []bool{true, false} {
		for _, w := range scripts {
			rich, w := rich, w
			cfg := c13Cfg()
			cfg.Preempt = 1
			what := "other descriptors"
			if rich {
				what = "nested messages"
			}
			c.Explore("copy", w.shape+" with "+what, pos, cfg, func(s *Scn) {
				r := s.newWrun()
				wc := r.newCall(w.shape, w.server, w.client)
				if rich {
					t := c.ExtType(traitsPkg, "ElectricMode")
					wc.req, wc.resp, wc.sreq, wc.sresp = t, t, t, t
				} else {
					wc.sreq, wc.sresp = c.Type(testprotoPkg, "UnaryRequest"), c.Type(testprotoPkg, "UnaryResponse")
				}
				s.Go("client", func() { wc.run(r, w.shape) })
				s.P.Settle()
				wc.check(w.shape)
			})
		}
	}
}

// c13Together makes calls while others are going on.
func c13Together(c *Ctx) {
	pos := c.Fn(wrapPkg, "ServerToClient").Pos()
	scripts := []wscript{
		{"Invoke", "r h:a=1 t:z=9 s ok", "s c r H T"},
		{"ServerStream", "r h:a=2 s s t:z=8 ok", "s c H R T"},
		{"ClientStream", "R h:a=3 E:NotFound:gone", "s s c r H T"},
		{"BidiStream", "r s w E:Aborted:cleanup", "s r x R"},
	}
	c.Explore("together", "calls of each shape", pos, c13Cfg(), func(s *Scn) {
		r := s.newWrun()
		var calls []*wcall
		first := s.Pick("first", len(scripts))
		second := s.Pick("second", len(scripts))
		if second == first {
			return
		}
		for _, i := range []int{first, second} {
			i := i
			wc := r.newCall(scripts[i].shape, scripts[i].server, scripts[i].client)
			calls = append(calls, wc)
			s.Go("client", func() { wc.run(r, scripts[i].shape) })
		}
		s.P.Settle()
		for i, wc := range calls {
			wc.check(fmt.Sprintf("call %d", i))
		}
	})
}
