package rules

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"scverify/internal/absint"
	"scverify/internal/load"
)

// rcall is a request a client has received.
type rcall struct {
	client, method string
	ctx, req       Val
}

// rtrace is what happens around a router.
type rtrace struct {
	clients map[string]string // by key
	calls   []rcall
	answer  func(call *absint.Call, rc rcall) Val
	streams map[string]*rstream
	servers map[string]*rserver
}

// rstream is the client's end of a stream.
type rstream struct {
	header, headerErr Val
	msgs              []Val
	next              int
	end               Val
	trailer           Val
}

// rserver is the server's end of a stream.
type rserver struct {
	ctx       Val
	got       []string
	headerErr Val
	failAt    int // which message isn't accepted
	sendErr   Val
	sends     int
}

// c12Hook makes the clients and streams of a scenario work.
func c12Hook(cfg *absint.Config) *absint.Config {
	old := cfg.Hook
	cfg.Hook = func(c *absint.Call) (Val, bool) {
		tr, _ := c.P.Data["rtrace"].(*rtrace)
		recv := c.Recv
		args := c.Args
		if recv == nil && len(args) > 0 && c.Fn != nil && c.Fn.Signature.Recv() != nil {
			recv, args = args[0], args[1:]
		}
		if tr == nil || recv == nil {
			if old != nil {
				return old(c)
			}
			return nil, false
		}
		key := absint.Key(absint.Unwrap(recv))
		method := c.Name[strings.LastIndex(c.Name, ".")+1:]
		s := c.P.Data["scn"].(*Scn)
		nilErr := absint.MkNil(errType)
		if name, ok := tr.clients[key]; ok {
			rc := rcall{client: name, method: method, ctx: args[0], req: args[1]}
			tr.calls = append(tr.calls, rc)
			return tr.answer(c, rc), true
		}
		if st, ok := tr.streams[key]; ok {
			switch method {
			case "Header":
				if st.headerErr != nil {
					return absint.TupleV{absint.MkNil(s.mdType()), st.headerErr}, true
				}
				return absint.TupleV{st.header, nilErr}, true
			case "Trailer":
				if st.next <= len(st.msgs) {
					s.Fail("the trailer is read before the end of the stream")
				}
				return st.trailer, true
			case "Recv":
				st.next++
				if st.next <= len(st.msgs) {
					return absint.TupleV{st.msgs[st.next-1], nilErr}, true
				}
				if st.next > len(st.msgs)+1 {
					s.Stop("the stream is read beyond its end")
				}
				return absint.TupleV{absint.MkNil(c.Sig.Results().At(0).Type()), st.end}, true
			case "CloseSend":
				return nilErr, true
			}
		}
		if f, ok := c.P.Data["registrar"].(func(desc, srv Val)); ok && method == "RegisterService" {
			f(args[0], args[1])
			return absint.TupleV{}, true
		}
		if sv, ok := tr.servers[key]; ok {
			if sv == nil {
				return c.P.Data["ss"].(func(string, []Val) (Val, bool))(method, args)
			}
			switch method {
			case "Context":
				return sv.ctx, true
			case "SendHeader", "SetHeader":
				if sv.headerErr != nil {
					return sv.headerErr, true
				}
				if v := absint.Key(s.P.Resolve(args[0])); !absint.IsNilConst(s.P.Resolve(args[0])) {
					sv.got = append(sv.got, "header "+v)
				}
				return nilErr, true
			case "SetTrailer":
				if !absint.IsNilConst(s.P.Resolve(args[0])) {
					sv.got = append(sv.got, "trailer "+absint.Key(s.P.Resolve(args[0])))
				}
				return absint.TupleV{}, true
			case "Send":
				sv.sends++
				if sv.sends == sv.failAt {
					return sv.sendErr, true
				}
				sv.got = append(sv.got, "message "+s.msgTerm(args[0]))
				return nilErr, true
			}
		}
		if old != nil {
			return old(c)
		}
		return nil, false
	}
	return cfg
}

func (s *Scn) mdType() types.Type {
	return s.C.ExtType(grpcNS+"/metadata", "MD")
}

// msgTerm identifies a message by its content.
func (s *Scn) msgTerm(v Val) string {
	v = s.P.Resolve(v)
	if absint.IsNilConst(v) {
		return "nil"
	}
	if iv, ok := v.(absint.IfaceV); ok {
		v = s.P.Resolve(iv.V)
	}
	return s.Content(v)
}

// clientType is the generated client of a service.
func (c *Ctx) clientType(s *rservice) types.Type {
	scope := s.pkg.Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || tn.Exported() || tn.IsAlias() {
			continue
		}
		if _, ok := tn.Type().Underlying().(*types.Struct); !ok {
			continue
		}
		if pt := types.NewPointer(tn.Type()); types.Implements(pt, s.client.Underlying().(*types.Interface)) {
			return pt
		}
	}
	panic(missing{"client of " + s.id()})
}

// newClient makes a client of a service.
func (s *Scn) newClient(tr *rtrace, t types.Type, name string) Val {
	p := s.P.Alloc(t.(*types.Pointer).Elem(), "client")
	tr.clients[absint.Key(p)] = name
	return absint.IfaceV{T: t, V: p}
}

func (s *Scn) newTrace() *rtrace {
	tr := &rtrace{clients: map[string]string{}, streams: map[string]*rstream{}, servers: map[string]*rserver{}}
	s.P.Data["rtrace"] = tr
	s.P.Data["scn"] = s
	return tr
}

// opaque is a value nothing is known about but that it isn't nil.
func (s *Scn) opaque(label string, t types.Type) Val {
	return s.P.NonNilSym(s.P.Fresh(label), t)
}

// opaqueRequest is a request where nothing is known about any field but the name.
func (s *Scn) opaqueRequest(t types.Type, name string) Val {
	t = t.(*types.Pointer).Elem()
	fields := map[string]Val{"Name": absint.MkString(name)}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); f.Exported() && f.Name() != "Name" {
			fields[f.Name()] = s.opaque("req."+f.Name(), f.Type())
		}
	}
	return s.NewMsg(t, "req", fields)
}

// routerValue creates a router of a service with clients called a and b.
func (s *Scn) routerValue(tr *rtrace, sv *rservice, rt *types.Named, opts ...Val) Val {
	fn := s.C.newRouterOf(rt)
	return s.Call(fn, s.variadic(fn, opts)...)[0]
}

func (s *Scn) onRouter(rt *types.Named, rv Val, method string, args ...Val) []Val {
	fn := s.C.P.Prog.LookupMethod(types.NewPointer(rt), rt.Obj().Pkg(), method)
	if fn == nil {
		panic(missing{rt.String() + "." + method})
	}
	return s.Call(fn, append([]Val{rv}, args...)...)
}

func c12Forward(c *Ctx) {
	for _, sv := range c.grpcServices() {
		rts := c.routersOf(sv)
		if len(rts) != 1 {
			continue // reported by every-service
		}
		ct := c.clientType(sv)
		for _, m := range sv.methods {
			c12ForwardMethod(c, "forward", sv, rts[0], ct, m)
		}
	}
}

// nameLong is a name unlike others.
var nameLong = "A " + strings.Repeat("/long", 100)

func c12ForwardMethod(c *Ctx, rule string, sv *rservice, rt *types.Named, ct types.Type, m *rmethod) {
	fn := c.P.Prog.LookupMethod(types.NewPointer(rt), rt.Obj().Pkg(), m.name)
	if fn == nil {
		return
	}
	cfg := c12Hook(c12Cfg())
	maxMsgs := 3
	if c.Tier == "thorough" {
		maxMsgs = 5
	}
	cfg.MaxLoop = 10
	c.Explore(rule, sv.id()+"."+m.name, fn.Pos(), cfg, func(s *Scn) {
		tr := s.newTrace()
		rv := s.routerValue(tr, sv, rt)
		for _, n := range []string{"a", "", nameLong} {
			s.onRouter(rt, rv, "Add", absint.MkString(n), s.newClient(tr, ct, n))
		}
		name := []string{"a", nameLong, "", "unknown"}[s.Pick("name", 4)]
		if name == nameLong && s.Bool("re-registered") {
			s.onRouter(rt, rv, "Add", absint.MkString("a"), s.newClient(tr, ct, "a2"))
			s.onRouter(rt, rv, "Add", absint.MkString(nameLong), s.newClient(tr, ct, nameLong+"2"))
		}
		target := name
		for k := range tr.clients {
			if tr.clients[k] == name+"2" {
				target = name + "2"
			}
		}
		req := s.opaqueRequest(m.req, name)
		before := s.fieldTerms(req)
		ctx := s.Ctx("caller")

		check := func() bool {
			if name == "unknown" {
				if len(tr.calls) > 0 {
					s.Fail("a request for an unknown name reaches %q", tr.calls[0].client)
				}
				return false
			}
			if len(tr.calls) != 1 {
				s.Fail("a request is forwarded %d times", len(tr.calls))
				return false
			}
			rc := tr.calls[0]
			if rc.client != target || rc.method != m.name {
				s.Fail("%s for %q is forwarded to %s of %q", m.name, target, rc.method, rc.client)
			}
			after := s.fieldTerms(rc.req)
			for _, k := range sortedKeys(before) {
				if after[k] != before[k] {
					s.Fail("the client receives %s=%s, the request has %s", k, after[k], before[k])
				}
			}
			if got, _ := absint.StringConst(s.P.Resolve(s.Field(rc.req, "Name"))); got != name {
				s.Fail("the client receives the name %q, the request has %q", got, name)
			}
			return true
		}

		if !m.streaming {
			okResp := s.Bool("success")
			resp := s.opaque("response", m.resp)
			var err Val = absint.MkNil(errType)
			if !okResp {
				err = s.P.MkErr(absint.MkInt(14), absint.MkString("of the client"))
				if s.Bool("no response") {
					resp = absint.MkNil(m.resp)
				}
			}
			tr.answer = func(call *absint.Call, rc rcall) Val {
				if s.P.CtxErr(rc.ctx) != "" {
					s.Fail("the client is called with a context that has ended")
				}
				s.P.CancelCtx(ctx)
				if s.P.CtxErr(rc.ctx) == "" {
					s.Fail("cancelling the caller doesn't reach the client")
				}
				return absint.TupleV{resp, err}
			}
			out := s.onRouter(rt, rv, m.name, ctx, req)
			if !check() {
				if code := s.Code(out[1]); name == "unknown" && code != codeNotFound {
					s.Fail("%s for an unknown name returns %s", m.name, code)
				}
				return
			}
			if a, b := absint.Key(s.P.Resolve(out[1])), absint.Key(s.P.Resolve(err)); a != b {
				s.Fail("the client's error is %s, the caller gets %s", b, a)
			}
			if a, b := absint.Key(absint.Unwrap(s.P.Resolve(out[0]))), absint.Key(absint.Unwrap(s.P.Resolve(resp))); okResp && a != b {
				s.Fail("the client's response is %s, the caller gets %s", b, a)
			}
			return
		}

		server := &rserver{ctx: ctx}
		streamT := fn.Signature.Params().At(1).Type()
		ssv := s.opaque("serverstream", streamT)
		tr.servers[absint.Key(ssv)] = server
		st := &rstream{}
		var want []string
		md := s.mdType()
		var wantErr Val
		gone := false
		script := "opens"
		if name == "a" {
			script = []string{"opens", "fails to open", "fails before the header", "header not accepted", "header without messages"}[s.Pick("script", 5)]
		}
		openErr := s.P.MkErr(absint.MkInt(14), absint.MkString("open"))
		switch script {
		case "fails to open":
			wantErr = openErr
		case "fails before the header":
			st.headerErr = s.P.MkErr(absint.MkInt(9), absint.MkString("before header"))
			wantErr = st.headerErr
		case "header not accepted":
			st.header = s.opaque("header", md)
			server.headerErr = s.P.MkErr(absint.MkInt(1), absint.MkString("header not accepted"))
			wantErr = server.headerErr
			gone = true
		default:
			st.header = absint.MkNil(md)
			if s.Bool("header") {
				st.header = s.opaque("header", md)
				want = append(want, "header "+absint.Key(st.header))
			}
			n := 0
			if script == "opens" {
				n = 1 + s.Pick("messages", maxMsgs)
			}
			respT := types.NewPointer(sendParam(streamT))
			for i := 0; i < n; i++ {
				st.msgs = append(st.msgs, s.opaque(fmt.Sprint("m", i), respT))
			}
			if n > 0 && s.Bool("caller goes away") {
				server.failAt = 1 + s.Pick("at", n)
				server.sendErr = s.P.MkErr(absint.MkInt(1), absint.MkString("caller gone"))
				wantErr = server.sendErr
				gone = true
			}
			for i, x := range st.msgs {
				if server.failAt > 0 && i >= server.failAt-1 {
					break
				}
				want = append(want, "message "+s.msgTerm(x))
			}
			st.trailer = absint.MkNil(md)
			if s.Bool("trailer") {
				st.trailer = s.opaque("trailer", md)
				if !gone {
					want = append(want, "trailer "+absint.Key(st.trailer))
				}
			}
			if s.Bool("succeeds") {
				st.end = s.extGlobal("io", "EOF")
				if !gone {
					wantErr = absint.MkNil(errType)
				}
			} else {
				st.end = s.P.MkErr(absint.MkInt(9), absint.MkString("of the client"))
				if !gone {
					wantErr = st.end
				}
			}
		}
		tr.answer = func(call *absint.Call, rc rcall) Val {
			rt := call.Sig.Results().At(0).Type()
			if script == "fails to open" {
				return absint.TupleV{absint.MkNil(rt), openErr}
			}
			v := s.opaque("clientstream", rt)
			tr.streams[absint.Key(v)] = st
			return absint.TupleV{v, absint.MkNil(errType)}
		}
		out := s.onRouter(rt, rv, m.name, req, ssv)
		if !check() {
			if code := s.Code(out[0]); name == "unknown" && (code != codeNotFound || len(server.got) > 0) {
				s.Fail("%s for an unknown name returns %s, sends %v", m.name, code, server.got)
			}
			return
		}
		if a, b := absint.Key(s.P.Resolve(out[0])), absint.Key(s.P.Resolve(wantErr)); a != b {
			s.Fail("%s: returns %s, want %s", script, a, b)
		}
		if script == "opens" || script == "header without messages" {
			if strings.Join(server.got, ", ") != strings.Join(want, ", ") {
				s.Fail("the client's stream is %v, the caller gets %v", want, server.got)
			}
		}
		if gone && server.failAt > 0 && s.P.CtxErr(tr.calls[0].ctx) == "" {
			s.Fail("the request to the client is still open after the caller has gone")
		}
		s.P.CancelCtx(ctx)
		if s.P.CtxErr(tr.calls[0].ctx) == "" {
			s.Fail("the request to the client isn't cancelled with that of the caller")
		}
	})
}

func c12Typed(c *Ctx) {
	svcs := c.grpcServices()
	for i, sv := range svcs {
		rts := c.routersOf(sv)
		if len(rts) != 1 {
			continue
		}
		other := svcs[(i+1)%len(svcs)]
		c12TypedRouter(c, "typed", sv, other, rts[0])
	}
}

func c12TypedRouter(c *Ctx, rule string, sv, other *rservice, rt *types.Named) {
	ct, wrongT := c.clientType(sv), c.clientType(other)
	find := func(prefix string) string {
		r := ""
		ms := types.NewMethodSet(types.NewPointer(rt))
		for j := 0; j < ms.Len(); j++ {
			f := ms.At(j).Obj().(*types.Func)
			sig := f.Type().(*types.Signature)
			if strings.HasPrefix(f.Name(), prefix) && sig.Results().Len() > 0 && types.Identical(sig.Results().At(0).Type(), sv.client) && sig.Params().Len() <= 2 && sig.Params().Len() > 0 && types.Identical(sig.Params().At(0).Type(), types.Typ[types.String]) {
				r = f.Name()
			}
		}
		if r == "" {
			panic(missing{prefix + " of " + rt.String()})
		}
		return r
	}
	add, remove, get := find("Add"), find("Remove"), find("Get")
	facs := c.funcsWhere(rt.Obj().Pkg(), func(f *types.Func, sig *types.Signature) bool {
		if sig.Params().Len() != 1 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), c.Type(routerPkg, "Option")) {
			return false
		}
		fs, ok := sig.Params().At(0).Type().Underlying().(*types.Signature)
		return ok && fs.Results().Len() == 2 && types.Identical(fs.Results().At(0).Type(), sv.client)
	})
	if len(facs) != 1 {
		c.Ob(rule, sv.id()+" factory", rt.Obj().Pos(), false, "%d options for the factory of clients, want 1", len(facs))
		return
	}
	register := c.P.Prog.LookupMethod(types.NewPointer(rt), rt.Obj().Pkg(), "Register")
	cfg := c12Hook(c12Cfg())
	cfg.Hooks = map[string]func(*absint.Call) (Val, bool){}
	for _, other := range c.grpcServices() {
		other := other
		cfg.Hooks[other.pkg.Path()+".Register"+other.name+"Server"] = func(call *absint.Call) (Val, bool) {
			s := call.P.Data["scn"].(*Scn)
			if f, ok := call.P.Data["registrar"].(func(desc, srv Val)); ok {
				f(absint.Ptr{C: s.descOf(other)}, call.Args[1])
				return absint.TupleV{}, true
			}
			return nil, false
		}
	}
	c.Explore(rule, sv.id(), rt.Obj().Pos(), cfg, func(s *Scn) {
		tr := s.newTrace()
		a, b, f := s.newClient(tr, ct, "a"), s.newClient(tr, ct, "b"), s.newClient(tr, ct, "made")
		made := 0
		scenario := s.Pick("scenario", 4)
		factory := s.Call(facs[0], s.Native("factory", func(args []Val) Val {
			made++
			if n, _ := absint.StringConst(s.P.Resolve(args[0])); n != "f" {
				return absint.TupleV{absint.MkNil(sv.client), s.P.MkErr(absint.MkInt(13), absint.MkString("no"))}
			}
			return absint.TupleV{f, absint.MkNil(errType)}
		}))[0]
		rv := s.routerValue(tr, sv, rt, factory)
		str := func(x string) Val { return absint.MkString(x) }
		same := func(what string, got, want Val) {
			if g, w := clientKey(s, got), "nil"; want == nil && g != w || want != nil && g != clientKey(s, want) {
				s.Fail("%s returns %s", what, g)
			}
		}
		isTrue := func(v Val) bool { x, _ := absint.BoolConst(s.P.Resolve(v)); return x }
		switch scenario {
		case 0:
			same(add+" of a new name", s.onRouter(rt, rv, add, str("n"), a)[0], nil)
			same(add+" of a known name", s.onRouter(rt, rv, add, str("n"), b)[0], a)
			same("Get", s.onRouter(rt, rv, "Get", str("n"))[0], b)
			out := s.onRouter(rt, rv, get, str("n"))
			same(get, out[0], b)
			if s.Code(out[1]) != "OK" {
				s.Fail("%s returns %s", get, s.Code(out[1]))
			}
			same(remove, s.onRouter(rt, rv, remove, str("n"))[0], b)
			same(remove+" of an unknown name", s.onRouter(rt, rv, remove, str("n"))[0], nil)
			if isTrue(s.onRouter(rt, rv, "Has", str("n"))[0]) {
				s.Fail("Has finds a client that was removed")
			}
		case 1:
			out := s.onRouter(rt, rv, get, str("f"))
			same(get+" with a factory", out[0], f)
			same(get+" with a factory", s.onRouter(rt, rv, get, str("f"))[0], f)
			if made != 1 {
				s.Fail("the factory is called %d times", made)
			}
			if !isTrue(s.onRouter(rt, rv, "Has", str("f"))[0]) {
				s.Fail("Has doesn't find the client of the factory")
			}
			out = s.onRouter(rt, rv, get, str("unknown"))
			same(get+" of an unknown name", out[0], nil)
			if code := s.Code(out[1]); code != codeNotFound {
				s.Fail("%s of an unknown name returns %s", get, code)
			}
		case 2:
			if sv.client.Underlying().(*types.Interface).NumMethods() == 0 {
				return // anything is a client
			}
			w := &rtrace{clients: map[string]string{}}
			wrong := s.newClient(w, wrongT, "wrong")
			if isTrue(s.onRouter(rt, rv, "HoldsType", wrong)[0]) || !isTrue(s.onRouter(rt, rv, "HoldsType", a)[0]) {
				s.Fail("HoldsType doesn't tell clients of %s from others", sv.name)
			}
			fn := c.P.Prog.LookupMethod(types.NewPointer(rt), rt.Obj().Pkg(), "Add")
			if o := s.P.CallFn(fn, rv, str("n"), wrong); !o.Panic {
				s.Fail("Add accepts a client of another service")
			}
			if isTrue(s.onRouter(rt, rv, "Has", str("n"))[0]) {
				s.Fail("a client of another service is registered")
			}
		case 3:
			if register == nil {
				return
			}
			var got []Val
			reg := s.opaque("registrar", register.Signature.Params().At(0).Type())
			s.P.Data["registrar"] = func(desc, srv Val) { got = append(got, desc, srv) }
			_ = s.Call(register, rv, reg)
			if len(got) != 2 {
				s.Fail("Register registers %d services", len(got)/2)
				return
			}
			if clientKey(s, got[1]) != clientKey(s, rv) {
				s.Fail("Register registers something else")
			}
			if d, ok := s.P.Resolve(got[0]).(absint.Ptr); !ok || d.C != s.descOf(sv) {
				s.Fail("Register uses the descriptor %s", absint.Key(got[0]))
			}
		}
	})
}

// descOf is the variable with the descriptor of a service.
func (s *Scn) descOf(sv *rservice) *absint.Cell {
	for _, sp := range s.C.P.Prog.AllPackages() {
		if sp.Pkg == sv.pkg {
			return s.P.Global(sp.Var(sv.name + "_ServiceDesc"))
		}
	}
	panic(missing{sv.name + "_ServiceDesc"})
}

func c12Wrapper(c *Ctx) {
	for _, sv := range c.grpcServices() {
		ws := c.wrappersOf(sv)
		if len(ws) != 1 {
			continue
		}
		c12WrapperOf(c, "wrapper", sv, ws[0])
	}
}

func c12WrapperOf(c *Ctx, rule string, sv *rservice, w *ssa.Function) {
	cfg := c12Hook(c12Cfg())
	scope := sv.pkg.Scope()
	newClient, _ := scope.Lookup("New" + sv.name + "Client").(*types.Func)
	if newClient == nil {
		panic(missing{"constructor of the client of " + sv.id()})
	}
	cfg.Hooks = map[string]func(*absint.Call) (Val, bool){
		load.Module + "/pkg/wrap.ServerToClient": func(call *absint.Call) (Val, bool) {
			s := call.P.Data["scn"].(*Scn)
			conn := s.opaque("conn", resType(call))
			call.P.Data["conn:"+absint.Key(conn)] = [2]string{absint.DeepKey(call.Args[0]), clientKey(s, call.Args[1])}
			return conn, true
		},
		newClient.FullName(): func(call *absint.Call) (Val, bool) {
			s := call.P.Data["scn"].(*Scn)
			call.P.Data["client of"] = absint.Key(s.P.Resolve(call.Args[0]))
			return s.newClient(call.P.Data["rtrace"].(*rtrace), c.clientType(sv), "wrapped"), true
		},
	}
	wt := w.Signature.Results().At(0).Type()
	c.Explore(rule, sv.id(), w.Pos(), cfg, func(s *Scn) {
		tr := s.newTrace()
		server := absint.IfaceV{T: types.NewPointer(s.C.Type(routerPkg, "Change")), V: s.P.Alloc(s.C.Type(routerPkg, "Change"), "server")}
		desc := absint.DeepKey(s.descOf(sv).Load())
		wv := s.Call(w, server)[0]
		on := func(method string, args ...Val) []Val {
			fn := s.C.P.Prog.LookupMethod(wt, nil, method)
			if fn == nil {
				panic(missing{wt.String() + "." + method})
			}
			return s.Call(fn, append([]Val{wv}, args...)...)
		}
		is := func(conn Val, what string) {
			got, ok := s.P.Data["conn:"+absint.Key(s.P.Resolve(conn))].([2]string)
			if !ok {
				s.Fail("%s isn't the wrapped server", what)
			} else if got[0] != desc || got[1] != clientKey(s, server) {
				s.Fail("%s has another server or descriptor", what)
			}
		}
		switch k := s.Pick("case", 2+len(sv.methods)); k {
		case 0:
			for _, m := range []string{"UnwrapServer", "Unwrap"} {
				if got := clientKey(s, on(m)[0]); got != clientKey(s, server) {
					s.Fail("%s returns %s", m, got)
				}
			}
			if got := clientKey(s, s.F("pkg/wrap", "UnwrapFully", absint.IfaceV{T: wt, V: wv})); got != clientKey(s, server) {
				s.Fail("UnwrapFully returns %s", got)
			}
		case 1:
			out := on("UnwrapService")
			is(out[0], "UnwrapService")
			if got := absint.DeepKey(out[1]); got != desc {
				s.Fail("UnwrapService returns another descriptor")
			}
		default:
			m := sv.methods[k-2]
			key, _ := s.P.Data["client of"].(string)
			is(&absint.Sym{Key: key}, "the client")
			ctx, req := s.Ctx("ctx"), s.opaqueRequest(m.req, "n")
			resp, err := Val(nil), s.opaque("err", errType)
			tr.answer = func(call *absint.Call, rc rcall) Val {
				if rc.method != m.name {
					s.Fail("%s calls %s", m.name, rc.method)
				}
				if absint.Key(rc.req) != absint.Key(req) || absint.Key(s.P.Resolve(rc.ctx)) != absint.Key(ctx) {
					s.Fail("%s passes something else on", m.name)
				}
				resp = s.opaque("resp", call.Sig.Results().At(0).Type())
				return absint.TupleV{resp, err}
			}
			opt := absint.MkNil(types.NewSlice(s.C.ExtType(grpcNS, "CallOption")))
			out := on(m.name, ctx, req, opt)
			if len(tr.calls) != 1 {
				s.Fail("%s calls the server %d times", m.name, len(tr.calls))
				return
			}
			if absint.Key(s.P.Resolve(out[0])) != absint.Key(resp) || absint.Key(s.P.Resolve(out[1])) != absint.Key(err) {
				s.Fail("%s returns something else", m.name)
			}
		}
	})
}

func c12DefaultName(c *Ctx) {
	const namePkg = "pkg/middleware/name"
	types2 := []*ptype{
		mkType("HasName", pscalar("name"), pscalar("x")),
		mkType("NoName", pscalar("x")),
		mkType("OtherName", &pfield{name: "name", kind: "scalar", elem: "int32"}, pscalar("x")),
		mkType("MessageName", pmessage("name", mkType("Name", pscalar("name"))), pscalar("x")),
	}
	type kase struct{ stream bool }
	for _, k := range []kase{{false}, {true}} {
		k := k
		fname := "IfAbsentUnaryInterceptor"
		if k.stream {
			fname = "IfAbsentStreamInterceptor"
		}
		fn := c.Fn(namePkg, fname)
		c.Explore("default-name", fname, fn.Pos(), c12Hook(pmCfg(c12Cfg())), func(s *Scn) {
			tr := s.newTrace()
			m := s.pm()
			t := types2[s.Pick("type", len(types2))]
			x := m.newMsg(t, "")
			for _, f := range t.fields {
				if f.kind == "scalar" && s.Bool("set "+f.name) {
					v := &pval{set: true}
					v.c = absint.MkString("given")
					if f.elem == "int32" {
						v.c = absint.MkInt(7)
					}
					x.f[f.name] = v
				}
			}
			native := s.Bool("not a message")
			var req Val = m.val(x)
			if native {
				req = absint.IfaceV{T: types.Typ[types.String], V: absint.MkString("text")}
			}
			want := m.clone(x)
			if t.name == "HasName" && !native {
				if v := want.f["name"]; v == nil || !v.set {
					want.f["name"] = &pval{set: true, c: absint.MkString("default")}
				}
			}
			icp := s.Call(fn, absint.MkString("default"))[0]
			sig := fn.Signature.Results().At(0).Type().Underlying().(*types.Signature)
			resp, err := s.opaque("resp", types.NewInterfaceType(nil, nil)), s.opaque("err", errType)
			called := 0
			check := func(got Val, when string) {
				if absint.Key(s.P.Resolve(got)) != absint.Key(req) {
					s.Fail("the %s is replaced", when)
				}
				if a, b := m.render(x), m.render(want); a != b {
					s.Fail("%s of %s with default: %s, want %s", when, t.name, a, b)
				}
			}
			info := s.opaque("info", sig.Params().At(sig.Params().Len()-2).Type())
			if !k.stream {
				ctx := s.Ctx("ctx")
				h := s.Native("handler", func(args []Val) Val {
					called++
					if absint.Key(s.P.Resolve(args[0])) != absint.Key(ctx) {
						s.Fail("the context is replaced")
					}
					check(args[1], "request")
					return absint.TupleV{resp, err}
				})
				out := s.callV(icp, ctx, req, info, h)
				if called != 1 {
					s.Fail("the handler is called %d times", called)
				}
				if absint.Key(s.P.Resolve(out[0])) != absint.Key(resp) || absint.Key(s.P.Resolve(out[1])) != absint.Key(err) {
					s.Fail("the response is replaced")
				}
				return
			}
			recvErr := s.Bool("receiving fails")
			// it's received into a message with something else, or nothing, in it
			received := x.f
			if !native {
				x.f = map[string]*pval{}
				if s.Bool("reused message") {
					for _, f := range t.fields {
						if f.kind == "scalar" && f.elem != "int32" {
							x.f[f.name] = &pval{set: true, c: absint.MkString("old")}
						}
					}
				}
			}
			ssT := sig.Params().At(1).Type()
			ss := s.opaque("ss", ssT)
			s.P.Data["ss"] = func(method string, args []Val) (Val, bool) {
				switch method {
				case "RecvMsg":
					if absint.Key(s.P.Resolve(args[0])) != absint.Key(req) {
						s.Fail("another message is received into")
					}
					if recvErr {
						want = m.clone(x)
						return err, true
					}
					if !native {
						x.f = received
					}
					return absint.MkNil(errType), true
				case "SendMsg", "SetHeader", "SendHeader":
					tr.calls = append(tr.calls, rcall{method: method, req: args[0]})
					return err, true
				case "Context":
					return resp, true
				}
				return nil, false
			}
			tr.servers[absint.Key(ss)] = nil
			srv := s.opaque("srv", sig.Params().At(0).Type())
			h := s.Native("handler", func(args []Val) Val {
				called++
				if absint.Key(s.P.Resolve(args[0])) != absint.Key(srv) {
					s.Fail("the server is replaced")
				}
				st := s.P.Resolve(args[1])
				out := s.invoke(st, ssT, "RecvMsg", req)
				if recvErr {
					if absint.Key(s.P.Resolve(out[0])) != absint.Key(err) {
						s.Fail("the error of the stream is replaced")
					}
					return err
				} else if !absint.IsNilConst(s.P.Resolve(out[0])) {
					s.Fail("receiving fails with %s", absint.Key(out[0]))
				}
				check(req, "received message")
				if out := s.invoke(st, ssT, "SendMsg", req); absint.Key(s.P.Resolve(out[0])) != absint.Key(err) || len(tr.calls) != 1 || absint.Key(s.P.Resolve(tr.calls[0].req)) != absint.Key(req) {
					s.Fail("sending isn't passed through")
				}
				return err
			})
			out := s.callV(icp, srv, ss, info, h)
			if called != 1 {
				s.Fail("the handler is called %d times", called)
			}
			if absint.Key(s.P.Resolve(out[0])) != absint.Key(err) {
				s.Fail("the error of the handler is replaced")
			}
		})
	}
}

// invoke calls a method of an interface value.
func (s *Scn) invoke(v Val, t types.Type, method string, args ...Val) []Val {
	it := t.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		if m := it.Method(i); m.Name() == method {
			return outs(s.P.CallInvoke(v, m, t, args...))
		}
	}
	panic(missing{t.String() + "." + method})
}

func outs(v Val) []Val {
	switch v := v.(type) {
	case nil:
		return nil
	case absint.TupleV:
		return v
	}
	return []Val{v}
}

// callV calls a function value.
func (s *Scn) callV(f Val, args ...Val) []Val { return outs(s.P.CallValue(f, args...)) }

