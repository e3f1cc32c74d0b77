package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Thread is an abstract goroutine.
// Only one thread is interpreted at a time, control moves between threads at synchronisation operations only.
type Thread struct {
	ID     int
	Name   string
	Done   bool
	By     *ssa.Function // what started it, nil for the scenario
	Pos    token.Pos
	stack  []*frame
	held   map[string]string
	rheld  map[string]int
	resume chan bool
	begun  bool
	ready  func() bool // nil when runnable
	desc   string
	cases  []waitCase
	fired  int
	rval   Val
	rok    bool
	end    chan struct{}
	dead   bool // told it can never run again
	vc     map[int]int
	Result any
}

type waitCase struct {
	send bool
	ch   Val
	v    Val
	t    types.Type
}

// Blocked is why a call never returns.
type Blocked struct{ Desc string }

type killed struct{}

type lockState struct {
	w  *Thread
	r  map[*Thread]int
	vc map[int]int
}

type timer struct {
	key   string
	ctx   *ctxInfo
	d     Val
	fired bool
	stop  bool
	fn    func()
}

type ctxInfo struct {
	key    string
	parent string
	err    string // global name of the error, "" when not done
	vc     map[int]int
	after  []func()
	values bool
}

func (p *Path) initThreads() {
	t := &Thread{ID: 0, Name: "main", resume: make(chan bool, 1), begun: true, fired: -1, vc: map[int]int{0: 1}}
	p.threads = []*Thread{t}
	p.cur = t
	p.lockSt = map[string]*lockState{}
	p.ctxs = map[string]*ctxInfo{}
	p.syncVC = map[string]map[int]int{}
	p.counters = map[string]int{}
}

// Spawn starts a thread that runs f once it is scheduled.
func (p *Path) Spawn(name string, f func()) *Thread {
	t := &Thread{ID: len(p.threads), Name: name, resume: make(chan bool, 1), held: map[string]string{}, rheld: map[string]int{}, fired: -1, end: make(chan struct{})}
	if len(p.stack) > 0 {
		t.By = p.stack[len(p.stack)-1].fn
		if c := p.stack[len(p.stack)-1].cur; c != nil {
			t.Pos = c.Pos()
		}
	}
	p.cur.vc[p.cur.ID]++
	t.vc = copyVC(p.cur.vc)
	t.vc[t.ID] = 1
	p.threads = append(p.threads, t)
	go func() {
		defer close(t.end)
		if !<-t.resume {
			return
		}
		t.begun = true
		defer func() {
			r := recover()
			switch r := r.(type) {
			case nil:
			case killed:
				return
			case targetPanic:
				p.Fail("goroutine started by %s panics: %s in %s", t.startedBy(), r.reason, fnName(r.fn))
				p.abort = cutPath{"crash"}
			default:
				p.abort = r
			}
			t.Done = true
			t.stack = nil
			if p.abort != nil {
				p.wakeMain()
				return
			}
			p.leave()
		}()
		f()
	}()
	return t
}

func (t *Thread) startedBy() string {
	if t.By == nil {
		return t.Name
	}
	return t.By.String()
}

// StartedBy names the function with the go statement that started the thread.
func (t *Thread) StartedBy() string { return t.startedBy() }

// Waiting describes what the thread is waiting for.
func (t *Thread) Waiting() string {
	if t.ready == nil {
		return ""
	}
	return t.desc
}

func (p *Path) wakeMain() {
	m := p.threads[0]
	p.cur = m
	p.stack, p.Held, p.rheld = m.stack, m.held, m.rheld
	m.resume <- true
}

// leave is called by a thread that has ended.
func (p *Path) leave() {
	if next := p.pick(nil); next != nil {
		p.switchTo(next)
		return
	}
	p.wakeMain()
}

func (p *Path) save() {
	p.cur.stack, p.cur.held, p.cur.rheld = p.stack, p.Held, p.rheld
}

func (p *Path) switchTo(t *Thread) {
	p.cur = t
	p.stack, p.Held, p.rheld = t.stack, t.held, t.rheld
	if p.Held == nil {
		p.Held = map[string]string{}
	}
	if p.rheld == nil {
		p.rheld = map[string]int{}
	}
	t.resume <- true
}

// park gives up control until resumed.
func (p *Path) park(t *Thread) {
	if !<-t.resume {
		panic(killed{})
	}
	if t.ID == 0 && p.abort != nil {
		r := p.abort
		p.abort = nil
		panic(r)
	}
}

func (t *Thread) runnable() bool { return !t.Done && !t.dead && (t.ready == nil || t.ready()) }

// pick chooses which thread runs next.
func (p *Path) pick(except *Thread) *Thread {
	var rs []*Thread
	n := len(p.threads)
	start := p.cur.ID + 1
	for i := 0; i < n; i++ {
		t := p.threads[(start+i)%n]
		if t != except && t.runnable() {
			rs = append(rs, t)
		}
	}
	if len(rs) == 0 {
		return nil
	}
	// the scenario runs when nobody else can
	if len(rs) > 1 {
		for i, t := range rs {
			if t.ID == 0 {
				rs = append(append([]*Thread{}, rs[:i]...), rs[i+1:]...)
				break
			}
		}
	}
	if len(rs) > 1 && p.Cfg.SchedChoice {
		return rs[p.chooseRaw(p.Fresh("sched"), len(rs))]
	}
	return rs[0]
}

// block waits until ready.
func (p *Path) block(desc string, ready func() bool) {
	t := p.cur
	if ready() {
		return
	}
	t.ready, t.desc = ready, desc
	for {
		if ready() {
			t.ready = nil
			return
		}
		next := p.pick(t)
		if next == nil && p.fireTimer() {
			continue
		}
		if next == nil {
			if t.ID == 0 {
				t.ready = nil
				panic(Blocked{desc + p.where()})
			}
			// nobody can make progress, tell main
			p.save()
			p.mainDead = true
			p.wakeMain()
			p.park(t)
			continue
		}
		p.save()
		p.switchTo(next)
		p.park(t)
		if t.ID == 0 && p.mainDead {
			p.mainDead = false
			if !ready() {
				if p.fireTimer() {
					continue
				}
				t.ready = nil
				panic(Blocked{desc + p.where()})
			}
		}
	}
}

// fireTimer lets time pass, which only happens when nothing else can.
func (p *Path) fireTimer() bool {
	if p.Cfg.NoTimers {
		return false
	}
	var best *timer
	for _, tm := range p.timers {
		if tm.fired || tm.stop || tm.ctx != nil && p.ctxErr(tm.ctx.key) != "" {
			continue
		}
		if best == nil {
			best = tm
			continue
		}
		a, ok1 := IntConst(p.Resolve(tm.d))
		b, ok2 := IntConst(p.Resolve(best.d))
		if ok1 && ok2 && a < b {
			best = tm
		}
	}
	if best == nil {
		return false
	}
	best.fired = true
	p.TimersFired = append(p.TimersFired, best.d)
	if best.ctx != nil {
		p.cancel(best.ctx, "context.DeadlineExceeded")
	}
	if best.fn != nil {
		p.Spawn("timer", best.fn)
	}
	return true
}

// Settle runs everybody else until nobody can make progress.
func (p *Path) Settle() {
	if p.cur.ID != 0 {
		panic("settle by " + p.cur.Name)
	}
	for {
		next := p.pick(p.cur)
		if next == nil {
			return
		}
		main := p.cur
		main.ready = func() bool { return true }
		p.save()
		p.switchTo(next)
		p.park(main)
		main.ready = nil
		p.mainDead = false
	}
}

// WaitFor blocks the current thread until ready, which must not change anything.
func (p *Path) WaitFor(what string, ready func() bool) { p.block(what, ready) }

// Yield is a point where another thread may run.
func (p *Path) yield(what string) {
	if !p.Cfg.Threads || p.preemptions >= p.Cfg.Preempt || p.quiet > 0 {
		return
	}
	if p.Cfg.PreemptAt != nil && !p.Cfg.PreemptAt(p, p.cur, what) {
		return
	}
	t := p.cur
	var rs []*Thread
	for _, o := range p.threads {
		if o != t && o.ID != 0 && (p.Cfg.PreemptTo == nil || p.Cfg.PreemptTo(o)) && o.runnable() {
			rs = append(rs, o)
		}
	}
	if len(rs) == 0 {
		return
	}
	k := p.chooseRaw(p.Fresh("preempt:"+t.Name+":"+what), len(rs)+1)
	if k == 0 {
		return
	}
	p.preemptions++
	t.ready, t.desc = func() bool { return true }, what
	p.save()
	p.switchTo(rs[k-1])
	p.park(t)
	t.ready = nil
}

func (p *Path) chooseRaw(key string, n int) int {
	if p.Cfg.Oracle != nil {
		if i, ok := p.Cfg.Oracle(p, key, n); ok {
			p.Facts = append(p.Facts, fmt.Sprintf("%s=%d", key, i))
			return i
		}
	}
	idx := 0
	if k := len(p.choices); k < len(p.replay) {
		idx = p.replay[k]
	}
	p.choices = append(p.choices, choice{idx, n})
	p.facts[key] = idx
	p.Facts = append(p.Facts, fmt.Sprintf("%s=%d", key, idx))
	return idx
}

// endThreads stops every thread, called when the path is done.
func (p *Path) endThreads() {
	for _, t := range p.threads[1:] {
		if !t.Done && !t.dead {
			t.dead = true
			t.resume <- false
			<-t.end
		}
	}
}

// Threads returns all threads but main.
func (p *Path) Threads() []*Thread { return p.threads[1:] }

// Live returns the threads that haven't ended.
func (p *Path) Live() []*Thread {
	var r []*Thread
	for _, t := range p.threads[1:] {
		if !t.Done {
			r = append(r, t)
		}
	}
	return r
}

// Cur returns the running thread
func (p *Path) Cur() *Thread { return p.cur }

// ---- contexts

// NewCtx creates a context that can be cancelled by the scenario.
func (p *Path) NewCtx(name string) *Sym {
	t := p.Eng.ContextType()
	s := &Sym{Key: p.Fresh(name), T: t, Op: "ctx", NonNil: true}
	p.ctx(s)
	return s
}

// DeriveCtx is a context that carries something else.
func (p *Path) DeriveCtx(parent Val, name string) *Sym {
	s := &Sym{Key: p.Fresh(name + "(" + Key(p.Resolve(parent)) + ")"), T: p.Eng.ContextType(), Op: "ctx.derived", Args: []Val{parent}, NonNil: true}
	p.ctx(s)
	return s
}

// CtxErr is the name of the error of a context, empty if it isn't done.
func (p *Path) CtxErr(v Val) string { return p.ctxErr(p.ctx(v).key) }

// CancelCtx cancels a context.
func (p *Path) CancelCtx(v Val) { p.cancel(p.ctx(v), "context.Canceled") }

// ExpireCtx makes the deadline of a context pass.
func (p *Path) ExpireCtx(v Val) { p.cancel(p.ctx(v), "context.DeadlineExceeded") }

func (p *Path) ctx(v Val) *ctxInfo {
	v = Unwrap(p.Resolve(v))
	key := Key(v)
	if c, ok := p.ctxs[key]; ok {
		return c
	}
	c := &ctxInfo{key: key}
	if s, ok := v.(*Sym); ok {
		switch s.Op {
		case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause", "context.WithValue", "ctx.derived":
			c.parent = p.ctx(s.Args[0]).key
		case "context.Background", "context.TODO", "context.WithoutCancel", "ctx":
		default:
			// contexts made by calls we don't look into inherit from the contexts they are given
			for _, a := range s.Args {
				if as, ok := Unwrap(p.Resolve(a)).(*Sym); ok && p.isCtx(as) {
					c.parent = p.ctx(as).key
				}
			}
		}
	}
	p.ctxs[key] = c
	return c
}

func (p *Path) isCtx(s *Sym) bool {
	if s.T == nil {
		return false
	}
	n, ok := s.T.(*types.Named)
	return ok && n.Obj().Name() == "Context" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context"
}

func (p *Path) ctxErr(key string) string {
	for i := 0; key != "" && i < 50; i++ {
		c := p.ctxs[key]
		if c == nil {
			return ""
		}
		if c.err != "" {
			return c.err
		}
		key = c.parent
	}
	return ""
}

func (p *Path) cancel(c *ctxInfo, err string) {
	if p.ctxErr(c.key) != "" {
		return
	}
	c.err = err
	p.cur.vc[p.cur.ID]++
	c.vc = copyVC(p.cur.vc)
	for _, o := range p.ctxs {
		if len(o.after) > 0 && p.ctxErr(o.key) != "" {
			fs := o.after
			o.after = nil
			for _, f := range fs {
				if f != nil {
					p.Spawn("AfterFunc", f)
				}
			}
		}
	}
}

func (p *Path) ctxVC(key string) map[int]int {
	for i := 0; key != "" && i < 50; i++ {
		c := p.ctxs[key]
		if c == nil {
			return nil
		}
		if c.err != "" {
			return c.vc
		}
		key = c.parent
	}
	return nil
}

// ContextType is context.Context.
func (e *Engine) ContextType() types.Type {
	if pk := e.Prog.ImportedPackage("context"); pk != nil {
		return pk.Type("Context").Type()
	}
	return types.NewInterfaceType(nil, nil)
}

func (p *Path) globalErr(name string) Val {
	i := strings.LastIndex(name, ".")
	if pk := p.Eng.Prog.ImportedPackage(name[:i]); pk != nil {
		if g := pk.Var(name[i+1:]); g != nil {
			return p.global(g).Load()
		}
	}
	return &Sym{Key: "global:" + name, T: errT, NonNil: true}
}

// ---- channels

func chanOf(v Val) *ChanObj {
	if c, ok := Unwrap(v).(ChanV); ok {
		return c.C
	}
	return nil
}

func (p *Path) chanCap(c *ChanObj) int {
	n, ok := IntConst(p.Resolve(c.Buf))
	if !ok {
		// unknown capacity, decide if it's buffered for more than we use
		return 0
	}
	return int(n)
}

// caseReady reports whether a case can proceed without anybody waiting for it.
func (p *Path) caseReady(c waitCase) bool {
	if IsNilConst(c.ch) {
		return false
	}
	if co := chanOf(c.ch); co != nil {
		if co.Closed {
			return true
		}
		if c.send {
			return len(co.Queue) < p.chanCap(co)
		}
		return len(co.Queue) > 0
	}
	if s, ok := c.ch.(*Sym); ok && !c.send {
		switch s.Op {
		case "done":
			return p.ctxErr(p.ctx(s.Args[0]).key) != ""
		case "timer":
			for _, tm := range p.timers {
				if tm.key == s.Key {
					return tm.fired
				}
			}
		}
	}
	return false
}

// partner finds a thread waiting to do the opposite of c.
func (p *Path) partner(c waitCase) (*Thread, int) {
	co := chanOf(c.ch)
	if co == nil || co.Closed {
		return nil, 0
	}
	for i := 0; i < len(p.waitQ); i++ {
		t := p.waitQ[i]
		if t == p.cur || t.fired >= 0 || t.cases == nil || t.dead {
			continue
		}
		for k, o := range t.cases {
			if o.send != c.send && chanOf(o.ch) == co {
				// somebody that could do something else might have chosen that
				return t, k
			}
		}
	}
	return nil, 0
}

func (p *Path) joinVC(vc map[int]int) {
	for k, v := range vc {
		if p.cur.vc[k] < v {
			p.cur.vc[k] = v
		}
	}
}

func copyVC(vc map[int]int) map[int]int {
	n := make(map[int]int, len(vc))
	for k, v := range vc {
		n[k] = v
	}
	return n
}

func mergeVC(dst, src map[int]int) {
	for k, v := range src {
		if dst[k] < v {
			dst[k] = v
		}
	}
}

// release and acquire are the edges of synchronisation through key.
func (p *Path) release(key string) {
	vc := p.syncVC[key]
	if vc == nil {
		vc = map[int]int{}
		p.syncVC[key] = vc
	}
	mergeVC(vc, p.cur.vc)
	p.cur.vc[p.cur.ID]++
}

func (p *Path) acquire(key string) { p.joinVC(p.syncVC[key]) }

// rendezvous performs one of the cases, returning its index, or -1 if none are ready and block is false.
func (p *Path) rendezvous(cases []waitCase, block bool, what string) (idx int, v Val, ok bool) {
	p.yield(what)
	avail := func() []int {
		var r []int
		for k, c := range cases {
			if p.caseReady(c) {
				r = append(r, k)
				continue
			}
			if t, _ := p.partner(c); t != nil {
				r = append(r, k)
			}
		}
		return r
	}
	t := p.cur
	for {
		if r := avail(); len(r) > 0 {
			k := r[0]
			if len(r) > 1 && !p.Cfg.SelectFirst {
				k = r[p.chooseRaw(p.Fresh("select:"+t.Name+":"+p.casesDesc(cases, r)), len(r))]
			}
			v, ok := p.perform(cases[k])
			return k, v, ok
		}
		if !block {
			return -1, nil, false
		}
		t.cases, t.fired = cases, -1
		p.waitQ = append(p.waitQ, t)
		func() {
			defer func() {
				t.cases = nil
				for i, o := range p.waitQ {
					if o == t {
						p.waitQ = append(append([]*Thread{}, p.waitQ[:i]...), p.waitQ[i+1:]...)
						break
					}
				}
			}()
			p.block(what+" "+p.casesDesc(cases, nil), func() bool {
				if t.fired >= 0 {
					return true
				}
				for _, c := range cases {
					if p.caseReady(c) {
						return true
					}
					if o, _ := p.partner(c); o != nil {
						return true
					}
				}
				return false
			})
		}()
		if t.fired >= 0 {
			k := t.fired
			t.fired = -1
			if co := chanOf(cases[k].ch); co != nil {
				p.acquire(fmt.Sprint("chan", co.ID))
			}
			return k, t.rval, t.rok
		}
	}
}

func (p *Path) casesDesc(cases []waitCase, only []int) string {
	var d []string
	for k, c := range cases {
		if only != nil {
			in := false
			for _, o := range only {
				in = in || o == k
			}
			if !in {
				continue
			}
		}
		if c.send {
			d = append(d, "send:"+Key(c.ch))
		} else {
			d = append(d, "recv:"+Key(c.ch))
		}
	}
	return strings.Join(d, "|")
}

func (p *Path) perform(c waitCase) (Val, bool) {
	if s, ok := c.ch.(*Sym); ok {
		if s.Op == "done" {
			p.joinVC(p.ctxVC(p.ctx(s.Args[0]).key))
		}
		return p.zero(c.t, nil), s.Op == "timer"
	}
	co := chanOf(c.ch)
	key := fmt.Sprint("chan", co.ID)
	if c.send {
		if co.Closed {
			p.panicf("send on closed channel %s", co.Label)
		}
		p.release(key)
		if o, k := p.partner(c); o != nil {
			o.fired, o.rval, o.rok = k, c.v, true
			mergeVC(p.cur.vc, o.vc) // the receive of an unbuffered channel happens before the send completes
			return nil, true
		}
		co.Queue = append(co.Queue, c.v)
		return nil, true
	}
	if len(co.Queue) > 0 {
		v := co.Queue[0]
		co.Queue = append([]Val{}, co.Queue[1:]...)
		p.acquire(key)
		p.release(key)
		// room for a waiting sender
		if o, k := p.partner(c); o != nil {
			co.Queue = append(co.Queue, o.cases[k].v)
			o.fired, o.rok = k, true
			mergeVC(p.syncVC[key], o.vc)
		}
		return v, true
	}
	if co.Closed {
		p.acquire(key)
		return p.zero(c.t, nil), false
	}
	o, k := p.partner(c)
	if o == nil {
		panic("perform: not ready")
	}
	p.release(key)
	o.fired, o.rok = k, true
	p.joinVC(o.vc)
	return o.cases[k].v, true
}

func (p *Path) sendThreaded(ch, v Val, pos token.Pos) {
	if IsNilConst(ch) {
		p.block("send on nil channel", func() bool { return false })
	}
	if co := chanOf(ch); co != nil && co.Closed {
		p.panicf("send on closed channel %s", co.Label)
	}
	p.event(&Event{Kind: "send", Name: Key(ch), Args: []Val{v}, Pos: pos})
	if chanOf(ch) == nil {
		return // a channel of the environment, somebody receives
	}
	p.rendezvous([]waitCase{{send: true, ch: ch, v: v}}, true, "send")
}

func (p *Path) recvThreaded(ch Val, vt types.Type) (Val, bool) {
	_, v, ok := p.rendezvous([]waitCase{{ch: ch, t: vt}}, true, "receive")
	return v, ok
}

// ChanRecv receives from a channel on behalf of the scenario, blocking.
func (p *Path) ChanRecv(ch Val) (Val, bool) {
	var et types.Type = types.NewInterfaceType(nil, nil)
	if c, ok := Unwrap(ch).(ChanV); ok {
		et = c.T.Underlying().(*types.Chan).Elem()
	}
	return p.recvThreaded(p.Resolve(Unwrap(ch)), et)
}

// ChanTryRecv receives if that's possible once everybody else has stopped.
// got is false if there is nothing to receive, ok is false if the channel is closed.
func (p *Path) ChanTryRecv(ch Val) (v Val, ok, got bool) {
	p.Settle()
	c := p.Resolve(Unwrap(ch))
	var et types.Type = types.NewInterfaceType(nil, nil)
	if cv, isC := c.(ChanV); isC {
		et = cv.T.Underlying().(*types.Chan).Elem()
	}
	k, v, ok := p.rendezvous([]waitCase{{ch: c, t: et}}, false, "receive")
	if k < 0 {
		return nil, false, false
	}
	return v, ok, true
}

// ---- locks

func (p *Path) lockThreaded(v Val, kind string, pos token.Pos) {
	l := p.LockLabel(v)
	st := p.lockSt[l]
	if st == nil {
		st = &lockState{r: map[*Thread]int{}, vc: map[int]int{}}
		p.lockSt[l] = st
	}
	t := p.cur
	switch kind {
	case "lock":
		p.yield("lock " + l)
		if st.w == t || st.r[t] > 0 {
			p.event(&Event{Kind: "deadlock", Name: l, Pos: pos})
		}
		p.block("lock "+l, func() bool { return st.w == nil && len(st.r) == 0 })
		st.w = t
		p.Held[l] = "w"
		p.joinVC(st.vc)
	case "rlock":
		p.yield("rlock " + l)
		if st.w == t || st.r[t] > 0 {
			// blocks if a writer is waiting
			p.event(&Event{Kind: "deadlock", Name: l, Pos: pos})
		}
		p.block("rlock "+l, func() bool { return st.w == nil })
		st.r[t]++
		p.Held[l] = "r"
		p.joinVC(st.vc)
	case "unlock":
		if st.w == nil {
			p.panicf("unlock of unlocked mutex %s", l)
		}
		if p.Cfg.OnUnlock != nil {
			p.Cfg.OnUnlock(p, l, kind)
		}
		st.w = nil
		delete(p.Held, l)
		mergeVC(st.vc, t.vc)
		t.vc[t.ID]++
	case "runlock":
		if len(st.r) == 0 {
			p.panicf("runlock of unlocked mutex %s", l)
		}
		if p.Cfg.OnUnlock != nil {
			p.Cfg.OnUnlock(p, l, kind)
		}
		if st.r[t] > 0 {
			st.r[t]--
			if st.r[t] == 0 {
				delete(st.r, t)
				delete(p.Held, l)
			}
		} else {
			for o := range st.r {
				delete(st.r, o)
				break
			}
		}
		mergeVC(st.vc, t.vc)
		t.vc[t.ID]++
	}
	p.event(&Event{Kind: kind, Name: l, Pos: pos})
	if p.Cfg.OnLock != nil && (kind == "lock" || kind == "rlock") {
		p.Cfg.OnLock(p, l, kind)
	}
	if kind == "unlock" || kind == "runlock" {
		p.yield("unlock " + l)
	}
}

// threadIntrinsic interprets functions that only make sense when threads are.
func (p *Path) threadIntrinsic(c *Call) (Val, bool) {
	a := c.Args
	switch c.Name {
	case "(*sync.WaitGroup).Add":
		n, ok := IntConst(p.Resolve(a[1]))
		if !ok {
			p.Stuck("WaitGroup.Add of %s", Key(a[1]))
		}
		l := p.LockLabel(a[0])
		if n < 0 {
			p.release("wg:" + l)
		}
		p.counters[l] += int(n)
		if p.counters[l] < 0 {
			p.panicf("negative WaitGroup counter")
		}
		return TupleV{}, true
	case "(*sync.WaitGroup).Done":
		l := p.LockLabel(a[0])
		p.release("wg:" + l)
		p.counters[l]--
		if p.counters[l] < 0 {
			p.panicf("negative WaitGroup counter")
		}
		return TupleV{}, true
	case "(*sync.WaitGroup).Wait":
		l := p.LockLabel(a[0])
		p.yield("wait " + l)
		p.block("wait "+l, func() bool { return p.counters[l] <= 0 })
		p.acquire("wg:" + l)
		return TupleV{}, true
	case "(*sync.WaitGroup).Go":
		l := p.LockLabel(a[0])
		p.counters[l]++
		fn := a[1]
		p.Spawn("go", func() {
			defer func() {
				p.release("wg:" + l)
				p.counters[l]--
			}()
			p.callValue(fn, nil, c.Pos, nil)
		})
		return TupleV{}, true
	case "(*sync.Cond).Wait", "(*sync.Cond).Signal", "(*sync.Cond).Broadcast":
		return p.cond(c)
	case "sync.NewCond":
		pv := p.Alloc(resultType(c.Sig).(*types.Pointer).Elem(), "cond")
		pv.T = resultType(c.Sig)
		pv.C.Load0().(*StructV).FieldByName("L").Set(p, a[0])
		return pv, true
	case "context.AfterFunc":
		ci := p.ctx(a[0])
		fn := a[1]
		f := func() { p.callValue(fn, nil, c.Pos, nil) }
		stopped := false
		idx := len(ci.after)
		if p.ctxErr(ci.key) != "" {
			p.Spawn("AfterFunc", f)
			stopped = true
		} else {
			ci.after = append(ci.after, f)
		}
		return &FuncV{Name: "stop", T: resultType(c.Sig), Native: func(p *Path, args []Val) Val {
			if stopped || p.ctxErr(ci.key) != "" {
				return MkBool(false)
			}
			stopped = true
			if idx < len(ci.after) {
				ci.after[idx] = nil
			}
			return MkBool(true)
		}}, true
	case "context.Cause":
		return p.ctxErrVal(a[0]), true
	case "time.After", "time.Tick":
		s := &Sym{Key: p.Fresh(c.Name), T: resultType(c.Sig), Op: "timer", NonNil: true, Args: a}
		p.timers = append(p.timers, &timer{key: s.Key, d: a[0]})
		return s, true
	case "time.NewTimer":
		pv := p.Alloc(resultType(c.Sig).(*types.Pointer).Elem(), "timer")
		pv.T = resultType(c.Sig)
		f := pv.C.Load0().(*StructV).FieldByName("C")
		s := &Sym{Key: p.Fresh(c.Name), T: f.T, Op: "timer", NonNil: true, Args: a}
		f.Set(p, s)
		p.timers = append(p.timers, &timer{key: s.Key, d: a[0]})
		p.Data["timer:"+pv.C.Label] = p.timers[len(p.timers)-1]
		return pv, true
	case "time.AfterFunc":
		pv := p.Alloc(resultType(c.Sig).(*types.Pointer).Elem(), "timer")
		pv.T = resultType(c.Sig)
		fn := a[1]
		tm := &timer{key: pv.C.Label, d: a[0], fn: func() { p.callValue(fn, nil, c.Pos, nil) }}
		p.timers = append(p.timers, tm)
		p.Data["timer:"+pv.C.Label] = tm
		return pv, true
	case "(*time.Timer).Stop":
		if tm, ok := p.Data["timer:"+p.LockLabel(a[0])].(*timer); ok {
			was := !tm.fired && !tm.stop
			tm.stop = true
			return MkBool(was), true
		}
	case "time.Sleep":
		key := p.Fresh("sleep")
		tm := &timer{key: key, d: a[0]}
		p.timers = append(p.timers, tm)
		p.block("sleep", func() bool { return tm.fired })
		return TupleV{}, true
	}
	return nil, false
}

func (p *Path) cond(c *Call) (Val, bool) {
	l := p.LockLabel(c.Args[0])
	switch {
	case strings.HasSuffix(c.Name, "Wait"):
		sv, ok := p.Deref(c.Args[0]).Load0().(*StructV)
		if !ok {
			return nil, false
		}
		lk := sv.FieldByName("L").Load()
		gen := p.counters["cond:"+l]
		mine := p.counters["condwait:"+l]
		p.counters["condwait:"+l]++
		_ = gen
		call := func(name string) {
			if iv, ok := lk.(IfaceV); ok {
				if m := p.Eng.Prog.LookupMethod(iv.T, nil, name); m != nil {
					p.callFn(m, []Val{iv.V}, nil, c.Pos)
				}
			}
		}
		call("Unlock")
		p.block("cond "+l, func() bool { return p.counters["cond:"+l] > mine })
		p.acquire("cond:" + l)
		call("Lock")
	case strings.HasSuffix(c.Name, "Signal"):
		p.release("cond:" + l)
		if p.counters["cond:"+l] < p.counters["condwait:"+l] {
			p.counters["cond:"+l]++
		}
	default:
		p.release("cond:" + l)
		p.counters["cond:"+l] = p.counters["condwait:"+l]
	}
	return TupleV{}, true
}

func (p *Path) ctxErrVal(ctx Val) Val {
	e := p.ctxErr(p.ctx(ctx).key)
	if e == "" {
		return MkNil(errT)
	}
	p.joinVC(p.ctxVC(p.ctx(ctx).key))
	return p.globalErr(e)
}

// ---- data races

type access struct {
	w     int // thread of the last write
	wc    int
	wheld map[string]string
	wpos  string
	r     map[int]int
	rpos  map[int]string
}

// access checks that what's done to a location is ordered with what others did to it.
func (p *Path) access(c *Cell, write bool) {
	if p.Cfg.YieldAccess && c != nil && c.Parent != nil && p.cur != nil && p.quiet == 0 {
		if sv, ok := c.Parent.v.(*StructV); ok && guarded(sv.T) {
			p.yield("access " + stripNum(c.Label))
		}
	}
	if !p.Cfg.Races || p.quiet > 0 || c == nil || p.cur == nil {
		return
	}
	for x, first := c, true; x != nil; x, first = x.Parent, false {
		p.accessKey(x, x.Label, write, first)
	}
	if sv, ok := c.v.(*StructV); ok {
		p.accessFields(sv, write)
	}
}

func (p *Path) accessFields(sv *StructV, write bool) {
	for _, fc := range sv.F {
		p.accessKey(fc, fc.Label, write, false)
		if s2, ok := fc.v.(*StructV); ok {
			p.accessFields(s2, write)
		}
	}
}

func (p *Path) accessKey(id any, label string, write, record bool) {
	a := p.acc[id]
	t := p.cur
	where := p.wherePos()
	if a != nil {
		if a.w != t.ID && a.wc > t.vc[a.w] && a.w >= 0 {
			p.race(label, a.wpos, where)
		}
		if write {
			for o, c := range a.r {
				if o != t.ID && c > t.vc[o] {
					p.race(label, a.rpos[o], where)
				}
			}
		}
	}
	if !record {
		return
	}
	if a == nil {
		a = &access{w: -1, r: map[int]int{}, rpos: map[int]string{}}
		if p.acc == nil {
			p.acc = map[any]*access{}
		}
		p.acc[id] = a
	}
	if write {
		a.w, a.wc, a.wpos = t.ID, t.vc[t.ID], where
	} else {
		a.r[t.ID], a.rpos[t.ID] = t.vc[t.ID], where
	}
}

func (p *Path) race(label, a, b string) {
	if strings.Contains(a, "scenario") && strings.Contains(b, "scenario") {
		return
	}
	if i := strings.IndexByte(label, '#'); i > 0 {
		label = label[:i]
	}
	if p.Cfg.OnRace != nil {
		p.Cfg.OnRace(p, label, a, b)
		return
	}
	p.Fail("data race on %s: %s and %s aren't ordered", label, a, b)
}

func (p *Path) wherePos() string {
	for i := len(p.stack) - 1; i >= 0; i-- {
		if f := p.stack[i]; p.Eng.InModule(f.fn) && f.fn.Synthetic == "" {
			return f.fn.String()
		}
	}
	return "the scenario"
}

func (p *Path) atomicOp(c *Call) (Val, bool) {
	if c.Fn == nil || pkgPath(c.Fn) != "sync/atomic" || len(c.Args) == 0 {
		return nil, false
	}
	l := "atomic:" + p.LockLabel(c.Args[0])
	name := c.Fn.Name()
	p.yield(l)
	p.acquire(l)
	defer p.release(l)
	rt := resultType(c.Sig)
	isMethod := c.Fn.Signature.Recv() != nil
	var cur Val
	get := func(t types.Type) Val {
		if isMethod {
			if v, ok := p.atomics[l]; ok {
				return v
			}
			return p.zero(t, nil)
		}
		return p.Deref(c.Args[0]).Load()
	}
	set := func(v Val) {
		if isMethod {
			if p.atomics == nil {
				p.atomics = map[string]Val{}
			}
			p.atomics[l] = v
			return
		}
		p.Deref(c.Args[0]).Set(p, v)
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		return get(rt), true
	case strings.HasPrefix(name, "Store"):
		set(c.Args[1])
		return TupleV{}, true
	case strings.HasPrefix(name, "Swap"):
		cur = get(rt)
		set(c.Args[1])
		return cur, true
	case strings.HasPrefix(name, "CompareAndSwap"):
		cur = get(c.Sig.Params().At(c.Sig.Params().Len() - 1).Type())
		if p.Equal(cur, c.Args[1]) {
			set(c.Args[2])
			return MkBool(true), true
		}
		return MkBool(false), true
	case strings.HasPrefix(name, "Add"):
		cur = get(rt)
		v := p.binop(token.ADD, cur, c.Args[1], rt, rt)
		set(v)
		return v, true
	}
	return nil, false
}

var _ = constant.MakeBool

// guarded says whether a struct has a lock.
func guarded(t types.Type) bool {
	if t == nil {
		return false
	}
	if v, ok := guardedTypes.Load(t); ok {
		return v.(bool)
	}
	r := false
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			switch types.TypeString(st.Field(i).Type(), nil) {
			case "sync.Mutex", "sync.RWMutex", "*sync.Mutex", "*sync.RWMutex", "sync.Locker":
				r = true
			}
		}
	}
	guardedTypes.Store(t, r)
	return r
}

var guardedTypes sync.Map

func stripNum(l string) string {
	if i := strings.IndexByte(l, '#'); i > 0 {
		return l[:i]
	}
	return l
}

// Yield is a point of the scenario where another thread may run.
func (p *Path) Yield(what string) { p.yield(what) }

func (p *Path) accessMap(m *MapObj, write bool) {
	if p.Cfg.YieldAccess && p.cur != nil {
		p.yield("access map " + stripNum(m.Label))
	}
	if !p.Cfg.Races || p.quiet > 0 || p.cur == nil {
		return
	}
	p.accessKey(m, "map "+m.Label, write, true)
}

// MkChan creates a channel.
func (p *Path) MkChan(t types.Type, name string, size int64) ChanV {
	p.nextID++
	return ChanV{t, &ChanObj{ID: p.nextID, Label: p.Fresh(name), Buf: MkInt(size)}}
}

// CloseChan closes a channel.
func (p *Path) CloseChan(ch Val) { p.builtin("close", nil, []Val{ch}, token.NoPos) }

// Try runs f like a call.
func (p *Path) Try(f func()) Outcome {
	return p.TryCall(&FuncV{Name: "try", Native: func(*Path, []Val) Val { f(); return TupleV{} }})
}

// FireTimer lets time pass until the next timer.
func (p *Path) FireTimer() bool { return p.fireTimer() }
