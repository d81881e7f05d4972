package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Proof roots for Server and the session handler. The server is built by
// NewServer and Run, the handler is the one Run gives to the link, the timeout
// function the one NewServer gives to the timer. The table is shared: whenever
// its lock is not held it may change in any way, except for the entry of the
// session under discussion, which only its own handler touches. The timer, the
// session's methods and the multi-part files are used by the contracts proved
// for them elsewhere.

const linkPkg = "github.com/funny/link"

type srvSession struct {
	id *Term
	o  *Obj
}

type srvEvent struct {
	kind string
	key  *Term // handler key; reply result; part number
	self *Obj
	msg  Value
	args []Value
	flag bool
}

type srvEnv struct {
	ex       *Ex
	w        *World
	vt, st   *types.Named // Server, Session
	p        PtrV
	tab      *Obj
	guard    string // the lock that guards the table
	learn    bool
	learned  map[string]bool
	locks    map[string]int // held locks
	rlocks   map[string]int
	nsec     int
	open     bool
	secs     []*srvSec
	own      *Term // id of the session under discussion
	ownIn    *Term // is it in the table?
	ownObj   *Obj
	sessions []srvSession
	timerCb  Value
	timerSec *Term
	timerEv  []srvEvent
	list     *SpecList // the sessions in the table, in some order
	ev       []srvEvent
	closedBy []*Term // link sessions the code closed
	handler  IfaceV
	closeH   int // calls of the close handler
	hkey     types.Type
	hval     types.Type
}

type srvSec struct {
	n       int
	own     *Term // own session in the table at the end
	changed bool
}

func typeIs(t types.Type, name string) bool { return t != nil && t.String() == name }

func (s *srvEnv) lockKey(p PtrV) string {
	k := "?"
	if p.O != nil {
		k = p.O.Name
	}
	for _, e := range p.Path {
		k += fmt.Sprintf(".%d", e.F)
	}
	return k
}

// linkID: the id of a session object.
func (s *srvEnv) linkID(o *Obj) *Term {
	sv, ok := o.Val.(StructV)
	if !ok {
		return nil
	}
	for i := range sv.F {
		if typeIs(fieldType(s.st, i), "*"+linkPkg+".Session") {
			if p, ok := sv.F[i].(PtrV); ok && p.O != nil {
				if q, ok := p.O.Val.(OpqV); ok {
					id, _ := q.Data.(*Term)
					return id
				}
			}
		}
	}
	return nil
}

func (s *srvEnv) linkSession(id *Term) PtrV {
	return s.ex.ptrNew("linksession", OpqV{Kind: "linksession", Data: id})
}

// session gives the session of an id; ids are never reused.
func (s *srvEnv) session(id *Term) *Obj {
	ex := s.ex
	for _, x := range s.sessions {
		if x.id == id || ex.choose(ex.b.Eq(x.id, id)) {
			return x.o
		}
	}
	sv := StructV{F: append([]Value{}, ex.zero(s.st).(StructV).F...)}
	for i := range sv.F {
		switch fieldType(s.st, i).String() {
		case "*" + linkPkg + ".Session":
			sv.F[i] = s.linkSession(id)
		case "*" + s.vt.String():
			sv.F[i] = s.p
		}
	}
	o := ex.newObj("session", sv, s.st)
	s.sessions = append(s.sessions, srvSession{id, o})
	return o
}

// findTable looks for the map of sessions in the server.
func (s *srvEnv) findTable(v Value, t types.Type, depth int) {
	if depth > 4 || t == nil {
		return
	}
	switch x := v.(type) {
	case StructV:
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := range x.F {
			if i < st.NumFields() {
				s.findTable(x.F[i], st.Field(i).Type(), depth+1)
			}
		}
	case PtrV:
		if p, ok := t.Underlying().(*types.Pointer); ok && x.O != nil && len(x.Path) == 0 && x.O != s.p.O {
			s.findTable(x.O.Val, p.Elem(), depth+1)
		}
	case MapRef:
		m, ok := t.Underlying().(*types.Map)
		if !ok || x.O == nil {
			return
		}
		if typeIs(m.Elem(), "*"+s.st.String()) {
			s.tab = x.O
		}
	}
}

func newSrvEnv(ex *Ex, w *World, keepalive *Term, merge *Term, closeH FuncV) *srvEnv {
	b := ex.b
	ex.wholeStr = true
	s := &srvEnv{ex: ex, w: w, vt: w.namedIn("go808", "Server"), st: w.namedIn("go808", "Session"),
		learned: map[string]bool{}, locks: map[string]int{}, rlocks: map[string]int{}}
	ot := w.namedIn("go808", "Options")
	nf := w.Pkgs["go808"].Func("NewServer")
	run := w.method(s.vt, "Run")
	if s.vt == nil || s.st == nil || ot == nil || nf == nil || run == nil {
		ex.failNow("exists", "NewServer, Server.Run, Session or Options not found")
		return nil
	}
	s.hooks()
	ov := StructV{F: append([]Value{}, ex.zero(ot).(StructV).F...)}
	for n, v := range map[string]Value{"Keepalive": keepalive, "AutoMergePacket": merge, "CloseHandler": closeH} {
		i := fieldIndex(ot, n)
		if i < 0 {
			ex.failNow("exists", "Options."+n+" not found")
			return nil
		}
		ov.F[i] = v
	}
	r := ex.callFn(nf, []Value{ov}, nil, "new")
	tv, ok := r.(TupleV)
	p, ok2 := tv[0].(PtrV)
	if !ok || !ok2 || p.O == nil || !ex.valid(b.Not(isErr(ex, tv[1]))) {
		ex.failNow("a server without a private key can be created", "NewServer fails")
		return nil
	}
	s.p = p
	s.findTable(p.O.Val, s.vt, 0)
	if s.tab == nil {
		ex.unsupported("the server has no map of sessions")
	}
	if ex.valid(b.Ne(ex.mapLen(MapRef{O: s.tab, Nil: b.F}), b.I(0))) {
		ex.failNow("a new server has no sessions", "the table is not empty")
	}
	// which lock guards the table?
	if get := w.method(s.vt, "GetSession"); get != nil {
		s.learn = true
		ex.callFn(get, []Value{s.p, b.I(0)}, nil, "learn")
		s.learn = false
		if len(s.learned) == 1 {
			for k := range s.learned {
				s.guard = k
			}
		}
	}
	ex.callFn(run, []Value{s.p, StrV{ex.bytesSeq("tcp")}, b.I(8808)}, nil, "run")
	if s.handler.Nil == nil {
		ex.failNow("Run serves the link", "no link server is created")
		return nil
	}
	s.havoc()
	return s
}

// havoc: others have changed the table.
func (s *srvEnv) havoc() {
	ex, b := s.ex, s.ex.b
	n := len(s.secs)
	N := b.Var(fmt.Sprintf("sessions%d", n), BV(64))
	ex.assume(b.And(b.SLe(b.I(0), N), b.SLt(N, b.I(1<<40))))
	has := func(k *Term) *Term {
		h := b.App(fmt.Sprintf("table%d", n), BoolS, k)
		if s.own != nil {
			h = b.Ite(b.Eq(k, s.own), s.ownIn, h)
		}
		return h
	}
	l := &SpecList{Key: fmt.Sprintf("sessions%d", n), N: N}
	id := func(j *Term) *Term { return b.App(fmt.Sprintf("sid%d", n), BV(64), j) }
	rank := func(k *Term) *Term { return b.App(fmt.Sprintf("srank%d", n), BV(64), k) }
	facts := func(j *Term) {
		in := b.And(b.SLe(b.I(0), j), b.SLt(j, N))
		ex.assume(b.Implies(in, b.And(has(id(j)), b.Eq(rank(id(j)), j))))
	}
	l.Elem = func(ex *Ex, j *Term) Value {
		facts(j)
		return ex.ptrTo(s.session(id(j)))
	}
	l.Unfold = func(ex *Ex, k *Term) int {
		if ex.choose(b.SLt(k, N)) {
			facts(k)
			return 1
		}
		ex.assume(b.Eq(k, N))
		return 0
	}
	// the number of sends that succeeded
	succ := func(k *Term) *Term { return b.App(fmt.Sprintf("sent%d", n), BV(64), k) }
	l.Forms = []func(ex *Ex, init Value, k *Term) (Value, bool){func(ex *Ex, init Value, k *Term) (Value, bool) {
		x, ok := init.(*Term)
		if !ok || x.S != BV(64) {
			return nil, false
		}
		ex.assume(b.Eq(succ(b.I(0)), b.I(0)))
		if !k.isConst() {
			j := b.Sub(k, b.I(1))
			step := b.Ite(s.sendOK(id(j)), b.I(1), b.I(0))
			ex.assume(b.Implies(b.SLt(b.I(0), k), b.Eq(succ(k), b.Add(succ(j), step))))
		}
		return b.Add(x, succ(k)), true
	}}
	// or a count that starts at the number of sessions and loses the failures
	l.Forms = append(l.Forms, func(ex *Ex, init Value, k *Term) (Value, bool) {
		v, ok := l.Forms[0](ex, init, k)
		if !ok {
			return nil, false
		}
		return b.Sub(v.(*Term), k), true
	})
	// or the number of failures
	l.Forms = append(l.Forms, func(ex *Ex, init Value, k *Term) (Value, bool) {
		v, ok := l.Forms[0](ex, b.I(0), k)
		x, ok2 := init.(*Term)
		if !ok || !ok2 || x.S != BV(64) {
			return nil, false
		}
		return b.Add(x, b.Sub(k, v.(*Term))), true
	})
	ex.lists = append(ex.lists, l)
	s.list = l
	key := func(v Value) *Term {
		t, ok := v.(*Term)
		if !ok {
			ex.unsupported("session key")
		}
		if t.S != BV(64) {
			ex.unsupported("session key")
		}
		return t
	}
	s.tab.Val = MapV{Base: &SymMap{Name: l.Key,
		Has: func(ex *Ex, v Value) *Term { return has(key(v)) },
		Val: func(ex *Ex, v Value) Value {
			k := key(v)
			if s.own != nil && s.ownObj != nil && ex.choose(b.Eq(k, s.own)) {
				return ex.ptrTo(s.ownObj)
			}
			return ex.ptrTo(s.session(k))
		},
		Range: func(ex *Ex) (*SpecList, func(j *Term) Value) { return l, func(j *Term) Value { return id(j) } },
	}}
}

func (s *srvEnv) sendOK(id *Term) *Term { return s.ex.b.App("sendok", BoolS, id) }

// leave: what a critical section did to the table.
func (s *srvEnv) leave() {
	ex, b := s.ex, s.ex.b
	mv, ok := s.tab.Val.(MapV)
	if !ok || mv.Base == nil {
		if !ok || s.nsec == 0 {
			ex.unsupported("table content")
		}
		ex.failNow("other sessions stay in the table", "the table is replaced")
		return
	}
	any := b.Var("anyid", BV(64))
	had := mv.Base.Has(ex, any)
	has := had
	sec := &srvSec{n: len(s.secs), changed: len(mv.Ents) > 0}
	for i := len(mv.Ents) - 1; i >= 0; i-- {
		e := mv.Ents[i]
		eq := ex.goEq(e.K, any)
		if e.V == nil {
			has = b.And(b.Not(eq), has)
			continue
		}
		has = b.Or(eq, has)
		p, ok := e.V.(PtrV)
		if !ok || p.O == nil || s.linkID(p.O) == nil {
			ex.failNow("the table maps an id to the session with that id", "no session")
			continue
		}
		ex.assert("the table maps an id to the session with that id", ex.goEq(e.K, s.linkID(p.O)), nil)
		if s.own != nil && p.O != s.ownObj {
			if s.ownObj == nil {
				s.ownObj = p.O
				s.sessions = append(s.sessions, srvSession{s.own, p.O})
			} else {
				ex.failNow("the table maps an id to the session with that id", "another session object")
			}
		}
	}
	same := b.Eq(had, has)
	if s.own != nil {
		same = b.Implies(b.Ne(any, s.own), same)
		s.ownIn = ex.substIn(has, any, s.own, mv, s)
	}
	ex.assert("other sessions are left alone", same, nil)
	sec.own = s.ownIn
	s.secs = append(s.secs, sec)
}

// substIn recomputes membership of the own session.
func (ex *Ex) substIn(_ *Term, _ *Term, own *Term, mv MapV, s *srvEnv) *Term {
	b := ex.b
	has := mv.Base.Has(ex, own)
	for i := len(mv.Ents) - 1; i >= 0; i-- {
		eq := ex.goEq(mv.Ents[i].K, own)
		if mv.Ents[i].V == nil {
			has = b.And(b.Not(eq), has)
		} else {
			has = b.Or(eq, has)
		}
	}
	return has
}

func (s *srvEnv) holds() bool {
	return s.locks[s.guard] > 0
}
func (s *srvEnv) anyLock() bool {
	for _, n := range s.locks {
		if n > 0 {
			return true
		}
	}
	for _, n := range s.rlocks {
		if n > 0 {
			return true
		}
	}
	return false
}

func (s *srvEnv) hooks() {
	ex, b := s.ex, s.ex.b
	pk := s.vt.Obj().Pkg().Path()
	ex.hooks[pk+".NewCountdownTimer"] = func(ex *Ex, a []Value) (Value, bool) {
		s.timerSec, s.timerCb = asTerm(ex, a[0]), a[1]
		return ex.ptrNew("timer", OpqV{Kind: "timer"}), true
	}
	for _, n := range []string{"Update", "Remove"} {
		n := n
		ex.hooks["(*"+pk+".CountdownTimer)."+n] = func(ex *Ex, a []Value) (Value, bool) {
			k := ex.wholeTerm(a[1].(StrV).S)
			if k == nil {
				ex.unsupported("timer key")
			}
			s.timerEv = append(s.timerEv, srvEvent{kind: n, key: k})
			return nil, true
		}
	}
	ex.hooks["net.Listen"] = func(ex *Ex, a []Value) (Value, bool) {
		return TupleV{IfaceV{Nil: b.F, Id: ex.fresh("listener", BV(32))}, ex.nilErr()}, true
	}
	ex.hooks[linkPkg+".NewServer"] = func(ex *Ex, a []Value) (Value, bool) {
		s.handler, _ = a[3].(IfaceV)
		return ex.ptrNew("linkserver", OpqV{Kind: "linkserver"}), true
	}
	ex.hooks["(*"+linkPkg+".Server).Serve"] = func(ex *Ex, a []Value) (Value, bool) { return ex.nilErr(), true }
	link := func(v Value) *Term {
		p := asPtr(ex, v)
		if p.O != nil {
			if q, ok := p.O.Val.(OpqV); ok && q.Kind == "linksession" {
				return q.Data.(*Term)
			}
		}
		ex.unsupported("an unknown link session")
		return nil
	}
	ex.hooks["(*"+linkPkg+".Session).ID"] = func(ex *Ex, a []Value) (Value, bool) { return link(a[0]), true }
	ex.hooks["(*"+linkPkg+".Session).Close"] = func(ex *Ex, a []Value) (Value, bool) {
		s.closedBy = append(s.closedBy, link(a[0]))
		if ex.choose(ex.fresh("closeok", BoolS)) {
			return ex.nilErr(), true
		}
		return ex.anyErr("closed"), true
	}
	ex.hooks["lock"] = func(ex *Ex, a []Value) (Value, bool) {
		k := s.lockKey(asPtr(ex, a[0]))
		op := a[1].(OpqV).Kind
		switch op {
		case "Lock", "RLock":
			ex.assert("the lock is not taken twice", b.Bool(s.locks[k] == 0 && (s.rlocks[k] == 0 || op == "RLock")), nil)
		}
		switch op {
		case "Lock":
			s.locks[k]++
		case "RLock":
			s.rlocks[k]++
		case "Unlock":
			ex.assert("only a held lock is released", b.Bool(s.locks[k] == 1), nil)
			s.locks[k]--
		case "RUnlock":
			ex.assert("only a held lock is released", b.Bool(s.rlocks[k] > 0), nil)
			s.rlocks[k]--
		}
		if s.learn || s.p.O == nil || k != s.guard || s.handler.Nil == nil {
			return nil, true
		}
		switch op {
		case "Lock", "RLock":
			s.nsec++
			s.havoc()
		case "Unlock", "RUnlock":
			s.leave()
		}
		return nil, true
	}
	ex.monitor = &Monitor{acc: func(ex *Ex, p PtrV, write bool) {
		if s.tab == nil || p.O != s.tab {
			return
		}
		if s.learn {
			for k, n := range s.locks {
				if n > 0 {
					s.learned[k] = true
				}
			}
			for k, n := range s.rlocks {
				if n > 0 {
					s.learned[k] = true
				}
			}
			return
		}
		if s.handler.Nil == nil {
			return
		}
		ok := s.guard != "" && (s.locks[s.guard] > 0 || !write && s.rlocks[s.guard] > 0)
		ex.assert("the table is used only under its lock", b.Bool(ok), nil)
	}}
	// handlers
	reg := func(id *Term) *Term { return b.App("registered", BoolS, id) }
	ex.hooks["(*sync.Map).Store"] = func(ex *Ex, a []Value) (Value, bool) {
		k, _ := a[1].(IfaceV)
		v, _ := a[2].(IfaceV)
		s.ev = append(s.ev, srvEvent{kind: "store", args: []Value{k, v}})
		return nil, true
	}
	ex.hooks["(*sync.Map).Load"] = func(ex *Ex, a []Value) (Value, bool) {
		k, ok := a[1].(IfaceV)
		id, ok2 := k.V.(*Term)
		if s.hkey == nil {
			ex.unsupported("a handler is looked up before one is registered")
		}
		if !ok || !ok2 || k.T == nil || !types.Identical(k.T, s.hkey) || !ex.choose(reg(id)) {
			return TupleV{ex.nilIface(), b.F}, true
		}
		return TupleV{IfaceV{Nil: b.F, T: s.hval, V: s.handlerFn(id)}, b.T}, true
	}
}

// handlerFn: the handler registered for an id.
func (s *srvEnv) handlerFn(id *Term) FuncV {
	b := s.ex.b
	return FuncV{Nil: b.F, Id: b.C(32, 0x8000), Mod: func(ex *Ex, a []Value) Value {
		ex.assert("handlers run without locks", b.Bool(!s.anyLock()), nil)
		e := srvEvent{kind: "handler", key: id}
		if p, ok := a[0].(PtrV); ok {
			e.self = p.O
		}
		if p, ok := a[1].(PtrV); ok && p.O != nil {
			e.msg = ex.load(p)
		}
		s.ev = append(s.ev, e)
		if ex.choose(ex.fresh("handlerpanics", BoolS)) {
			ex.throw("the handler panics", nil)
		}
		return nil
	}}
}

// learnHandlers runs AddHandler once.
func (s *srvEnv) learnHandlers(check bool) bool {
	ex, b := s.ex, s.ex.b
	fn := s.w.method(s.vt, "AddHandler")
	if fn == nil {
		ex.failNow("exists", "Server.AddHandler not found")
		return false
	}
	hid := b.Var("handledid", BV(16))
	n := len(s.ev)
	h := FuncV{Nil: b.F, Id: b.C(32, 0x8001), Mod: func(ex *Ex, a []Value) Value { return nil }}
	ex.callFn(fn, []Value{s.p, hid, h}, nil, "add")
	if check {
		ex.ok("no-panic")
	}
	if len(s.ev) == n+1 && s.ev[n].kind == "store" {
		k, v := s.ev[n].args[0].(IfaceV), s.ev[n].args[1].(IfaceV)
		s.hkey, s.hval = k.T, v.T
		if check {
			ex.assertEq("a handler is registered under its id", k.V, hid)
			f, ok := v.V.(FuncV)
			ex.assert("the handler given is registered", b.Bool(ok && f.Id != nil && f.Id.isConst() && f.Id.Val == 0x8001), nil)
		}
		s.ev = s.ev[:n]
		return true
	}
	// a map of handlers
	ok := s.mapHandlers(ex.load(s.p), s.vt, 0, hid, check)
	if !ok {
		if check {
			ex.failNow("a handler is registered under its id", "nothing is stored")
		} else {
			ex.unsupported("where handlers are kept")
		}
	}
	s.ev = s.ev[:n]
	return ok
}
func (s *srvEnv) mapHandlers(v Value, t types.Type, depth int, hid *Term, check bool) bool {
	ex, b := s.ex, s.ex.b
	if depth > 4 || t == nil {
		return false
	}
	switch x := v.(type) {
	case StructV:
		st, ok := t.Underlying().(*types.Struct)
		for i := range x.F {
			if ok && i < st.NumFields() && s.mapHandlers(x.F[i], st.Field(i).Type(), depth+1, hid, check) {
				return true
			}
		}
	case PtrV:
		if p, ok := t.Underlying().(*types.Pointer); ok && x.O != nil && len(x.Path) == 0 && x.O != s.p.O {
			return s.mapHandlers(x.O.Val, p.Elem(), depth+1, hid, check)
		}
	case MapRef:
		m, ok := t.Underlying().(*types.Map)
		if !ok || x.O == nil {
			return false
		}
		if _, isF := m.Elem().Underlying().(*types.Signature); !isF {
			return false
		}
		mv, _ := x.O.Val.(MapV)
		if check {
			good := len(mv.Ents) == 1
			if good {
				f, ok := mv.Ents[0].V.(FuncV)
				good = ok && f.Id != nil && f.Id.isConst() && f.Id.Val == 0x8001 && ex.valid(ex.goEq(mv.Ents[0].K, hid))
			}
			ex.assert("a handler is registered under its id", b.Bool(good), nil)
		}
		x.O.Val = MapV{Base: &SymMap{Name: "handlers",
			Has: func(ex *Ex, v Value) *Term { return b.App("registered", BoolS, asTerm(ex, v)) },
			Val: func(ex *Ex, v Value) Value { return s.handlerFn(asTerm(ex, v)) }}}
		return true
	}
	return false
}

func (s *srvEnv) timerKey(id *Term) *Term { return s.ex.b.App("fmtu", US("Str"), id) }

func srvJobs(w *World) []job {
	if w.Pkgs["go808"] == nil {
		return nil
	}
	vt := w.namedIn("go808", "Server")
	if vt == nil {
		return nil
	}
	noClose := func(ex *Ex) FuncV { return FuncV{Nil: ex.b.T} }
	var js []job
	js = append(js, job{"table:New", func(w *World, e *Engine) {
		e.Explore(func(ex *Ex) {
			b := ex.b
			ka := b.Var("keepalive", BV(64))
			ex.addInput("keepalive", ka)
			s := newSrvEnv(ex, w, ka, b.F, noClose(ex))
			if s == nil {
				return
			}
			ex.ok("no-panic")
			ex.assert("the table is guarded by a lock", b.Bool(s.guard != ""), nil)
			if s.timerSec == nil {
				ex.failNow("a server has an idle timer", "no timer is created")
				return
			}
			if ex.choose(b.SLt(b.I(0), ka)) {
				ex.assertEq("the idle period is the configured one", s.timerSec, ka)
			} else {
				ex.assert("the idle period is positive", b.SLt(b.I(0), s.timerSec), nil)
			}
		})
	}})
	js = append(js, job{"table:GetSession", func(w *World, e *Engine) {
		fn := w.method(vt, "GetSession")
		if !w.need(e, fn, "Server.GetSession") {
			return
		}
		e.Explore(func(ex *Ex) {
			b := ex.b
			s := newSrvEnv(ex, w, b.I(60), b.F, noClose(ex))
			if s == nil {
				return
			}
			id := b.Var("id", BV(64))
			ex.addInput("id", id)
			n := len(s.secs)
			r := ex.callFn(fn, []Value{s.p, id}, nil, "root").(TupleV)
			ex.ok("no-panic")
			ex.assert("the lock is released", b.Bool(!s.anyLock()), nil)
			if len(s.secs) != n+1 {
				ex.failNow("a lookup looks at the table once", fmt.Sprintf("%d critical sections", len(s.secs)-n))
				return
			}
			in := b.App(fmt.Sprintf("table%d", n), BoolS, id)
			ex.assert("a session is found exactly when it is in the table", b.Eq(r[1].(*Term), in), nil)
			p, _ := r[0].(PtrV)
			if ex.choose(in) {
				ok := p.O != nil && s.linkID(p.O) != nil
				ex.assert("the session found is the one with that id", b.Bool(ok), nil)
				if ok {
					ex.assertEq("the session found is the one with that id", s.linkID(p.O), id)
				}
			} else {
				ex.assert("nothing is returned for an unknown id", p.Nil, nil)
			}
			ex.assert("a lookup closes nothing", b.Bool(len(s.closedBy) == 0 && len(s.timerEv) == 0), nil)
		})
	}})
	js = append(js, job{"table:timeout", func(w *World, e *Engine) {
		e.Explore(func(ex *Ex) {
			b := ex.b
			s := newSrvEnv(ex, w, b.I(60), b.F, noClose(ex))
			if s == nil {
				return
			}
			if s.timerCb == nil {
				ex.failNow("a server has an idle timer", "no timer is created")
				return
			}
			id := b.Var("id", BV(64))
			ex.addInput("id", id)
			n := len(s.secs)
			ex.callValue(s.timerCb, []Value{StrV{ex.strSeq(s.timerKey(id))}}, "root")
			ex.ok("no-panic")
			ex.assert("the lock is released", b.Bool(!s.anyLock()), nil)
			if len(s.secs) != n+1 {
				ex.failNow("a timeout looks at the table once", fmt.Sprintf("%d critical sections", len(s.secs)-n))
				return
			}
			in := b.App(fmt.Sprintf("table%d", n), BoolS, id)
			if ex.choose(in) {
				ex.assert("a timeout closes the session", b.Bool(len(s.closedBy) == 1), nil)
				for _, c := range s.closedBy {
					ex.assertEq("a timeout closes the session with that id and no other", c, id)
				}
			} else {
				ex.assert("a timeout of a session that is gone closes nothing", b.Bool(len(s.closedBy) == 0), nil)
			}
		})
	}})
	js = append(js, job{"table:Broadcast", func(w *World, e *Engine) {
		fn := w.method(vt, "Broadcast")
		send := w.method(w.namedIn("go808", "Session"), "Send")
		if !w.need(e, fn, "Server.Broadcast") || !w.need(e, send, "Session.Send") {
			return
		}
		e.Explore(func(ex *Ex) {
			b := ex.b
			s := newSrvEnv(ex, w, b.I(60), b.F, noClose(ex))
			if s == nil {
				return
			}
			sp := types.NewPointer(s.st)
			sent := ex.newObj("sent", ex.sliceOf(emptySeq, "sent0", sp), types.NewSlice(sp))
			entity := IfaceV{Nil: b.F, Id: b.Var("entity", BV(32))}
			ex.hooks[send.String()] = func(ex *Ex, a []Value) (Value, bool) {
				p := asPtr(ex, a[0])
				ex.assert("what is broadcast is the given entity", ex.goEq(a[1], entity), nil)
				var id *Term
				if p.O != nil {
					id = s.linkID(p.O)
				}
				if id == nil {
					ex.throw("nil pointer", nil)
				}
				c := ex.cat(ex.content(asSlice(ex, ex.load(ex.ptrTo(sent)))), elems(p))
				sent.Val = ex.sliceOf(c, "sent", sp)
				ser := ex.fresh("serial", BV(16))
				if ex.choose(s.sendOK(id)) {
					return TupleV{ser, ex.nilErr()}, true
				}
				return TupleV{b.C(16, 0), ex.anyErr("send")}, true
			}
			n := len(s.secs)
			r := ex.callFn(fn, []Value{s.p, entity}, nil, "root")
			ex.ok("no-panic")
			ex.assert("the lock is released", b.Bool(!s.anyLock()), nil)
			if len(s.secs) != n+1 {
				ex.failNow("a broadcast looks at the table once", fmt.Sprintf("%d critical sections", len(s.secs)-n))
				return
			}
			got := ex.content(asSlice(ex, ex.load(ex.ptrTo(sent))))
			l := s.list
			ex.assertEq("a broadcast sends to every session in the table once", StrV{got}, StrV{ex.win(listBase{l}, b.I(0), l.N)})
			want, _ := l.Forms[0](ex, b.I(0), l.N)
			ex.assertEq("a broadcast returns how many sends succeeded", r, want)
			ex.assert("a broadcast closes nothing", b.Bool(len(s.closedBy) == 0 && len(s.timerEv) == 0), nil)
		})
	}})
	js = append(js, job{"serve:AddHandler", func(w *World, e *Engine) {
		fn := w.method(vt, "AddHandler")
		if !w.need(e, fn, "Server.AddHandler") {
			return
		}
		e.Explore(func(ex *Ex) {
			s := newSrvEnv(ex, w, ex.b.I(60), ex.b.F, noClose(ex))
			if s == nil {
				return
			}
			s.learnHandlers(true)
			ex.assert("the lock is released", ex.b.Bool(!s.anyLock()), nil)
			// a nil handler is not registered: a message must not be dispatched to it
			ex.callFn(fn, []Value{s.p, ex.b.Var("otherid", BV(16)), FuncV{Nil: ex.b.T}}, nil, "nil")
			ex.ok("no-panic")
			n := 0
			for _, x := range s.ev {
				if x.kind == "store" {
					n++
				}
			}
			ex.assert("a nil handler is not registered", ex.b.Bool(n == 0), nil)
		})
	}})
	js = append(js, job{"serve:session", func(w *World, e *Engine) {
		e.Explore(func(ex *Ex) { serveRoot(ex, w) })
	}})
	return js
}

func serveRoot(ex *Ex, w *World) {
	b := ex.b
	pk := w.namedIn("go808", "Server").Obj().Pkg().Path()
	pp := w.Pkgs["protocol"].Pkg.Path()
	mt, ht := w.namedIn("protocol", "Message"), w.namedIn("protocol", "Header")
	merge := ex.choose(b.Var("merge", BoolS))
	var s *srvEnv
	closeH := FuncV{Nil: b.T}
	withClose := ex.choose(b.Var("hasclosehandler", BoolS))
	if withClose {
		closeH = FuncV{Nil: b.F, Id: b.C(32, 0x9009), Mod: func(ex *Ex, a []Value) Value {
			ex.assert("table: the close handler runs without locks", b.Bool(!s.anyLock()), nil)
			p, _ := a[0].(PtrV)
			ex.assert("table: the close handler gets the session", b.Bool(p.O != nil && p.O == s.ownObj), nil)
			s.closeH++
			if ex.choose(ex.fresh("closehandlerpanics", BoolS)) {
				ex.throw("the close handler panics", nil)
			}
			return nil
		}}
	}
	s = newSrvEnv(ex, w, b.I(60), b.Bool(merge), closeH)
	if s == nil {
		return
	}
	if !s.learnHandlers(false) {
		return
	}
	s.own = b.Var("id", BV(64))
	s.ownIn = b.F
	s.havoc()
	ls := s.linkSession(s.own)
	closed, registered, invoked := false, false, false
	var cb Value
	maybeClose := func() {
		if !closed && ex.choose(ex.fresh("closes", BoolS)) {
			closed = true
		}
	}
	running := false
	invoke := func() {
		invoked, running = true, true
		ex.callValue(cb, nil, "closecallback")
		running = false
	}
	maybeInvoke := func() {
		if closed && registered && !invoked && !running && !s.anyLock() && ex.choose(ex.fresh("callsback", BoolS)) {
			invoke()
		}
	}
	ex.hooks["(*"+linkPkg+".Session).AddCloseCallback"] = func(ex *Ex, a []Value) (Value, bool) {
		if cb != nil {
			ex.unsupported("several close callbacks")
		}
		cb = a[3]
		maybeClose()
		if closed {
			// it may be too late
			registered = ex.choose(ex.fresh("intime", BoolS))
		} else {
			registered = true
			maybeClose()
		}
		maybeInvoke()
		return nil, true
	}
	ex.hooks["(*"+linkPkg+".Session).IsClosed"] = func(ex *Ex, a []Value) (Value, bool) {
		maybeClose()
		maybeInvoke()
		return b.Bool(closed), true
	}
	ex.hooks["(*"+linkPkg+".Session).Close"] = func(ex *Ex, a []Value) (Value, bool) {
		p := asPtr(ex, a[0])
		if p.O != ls.O {
			ex.failNow("table: only the own link session is closed", "another session is closed")
		}
		was := closed
		closed = true
		if was {
			return ex.anyErr("closed"), true
		}
		return ex.nilErr(), true
	}
	received := false
	var mv StructV
	begun := false
	at := len(s.ev)
	nt := 0
	var body IfaceV
	ex.hooks["(*"+linkPkg+".Session).Receive"] = func(ex *Ex, a []Value) (Value, bool) {
		if p := asPtr(ex, a[0]); p.O != ls.O {
			ex.failNow("message: messages are received from the own link session", "another session")
		}
		if received {
			ex.failNow("message: one message is received at a time", "a second message in the same round")
		}
		maybeClose()
		maybeInvoke()
		if closed || !ex.choose(ex.fresh("received", BoolS)) {
			closed = true
			return TupleV{ex.nilIface(), ex.anyErr("receive")}, true
		}
		received = true
		mv = opaqueMessage(ex, mt, ht, "message").(StructV)
		hv := mv.F[fieldIndex(mt, "Header")].(StructV)
		hf := append([]Value{}, hv.F...)
		prop := hf[fieldIndex(ht, "Property")].(*Term)
		// by the contract of Message.Decode: sub-packet data is present when announced
		if ex.choose(b.Ne(b.BAnd(prop, b.C(16, 0x2000)), b.C(16, 0))) {
			pt := w.namedIn("protocol", "Packet")
			pv := StructV{F: append([]Value{}, ex.zero(pt).(StructV).F...)}
			pv.F[fieldIndex(pt, "Sum")] = b.Var("message.Sum", BV(16))
			pv.F[fieldIndex(pt, "Seq")] = b.Var("message.Seq", BV(16))
			hf[fieldIndex(ht, "Packet")] = ex.ptrTo(ex.newObj("packet", pv, pt))
		}
		mf := append([]Value{}, mv.F...)
		mf[fieldIndex(mt, "Header")] = StructV{F: hf}
		mv = StructV{F: mf}
		body = mv.F[fieldIndex(mt, "Body")].(IfaceV)
		return TupleV{IfaceV{Nil: b.F, T: mt, V: mv}, ex.nilErr()}, true
	}
	typedNil := b.App("typednil", BoolS, b.Var("message.body", BV(32)))
	ex.hooks["reflect.ValueOf"] = func(ex *Ex, a []Value) (Value, bool) {
		return OpqV{Kind: "reflect.Value", Data: a[0]}, true
	}
	ex.hooks["(reflect.Value).IsNil"] = func(ex *Ex, a []Value) (Value, bool) {
		o, _ := a[0].(OpqV)
		iv, ok := o.Data.(IfaceV)
		if !ok {
			return nil, false
		}
		if ex.choose(iv.Nil) {
			ex.throw("reflect: IsNil of nothing", nil)
		}
		if iv.Id != nil && iv.T == nil {
			return b.App("typednil", BoolS, iv.Id), true
		}
		if p, ok := iv.V.(PtrV); ok {
			return p.Nil, true
		}
		return nil, false
	}
	isPacket := b.Var("ispacket", BoolS)
	ex.hooks["assert:"+pp+".EntityPacket"] = func(ex *Ex, a []Value) (Value, bool) {
		if ex.choose(isPacket) {
			return TupleV{a[0], b.T}, true
		}
		return TupleV{ex.nilIface(), b.F}, true
	}
	ofBody := func(v Value, what string) {
		iv, ok := v.(IfaceV)
		ex.assert("message: "+what+" is that of the received message", b.Bool(ok && iv.Id != nil && iv.Id == body.Id), nil)
	}
	tag := b.Var("tag", BV(32))
	content := ex.strSeq(b.Var("packetdata", US("Str")))
	ex.hooks["iface:GetTag"] = func(ex *Ex, a []Value) (Value, bool) {
		ofBody(a[0], "the tag")
		return tag, true
	}
	rid := b.C(32, 0x5001)
	ex.hooks["iface:GetReader"] = func(ex *Ex, a []Value) (Value, bool) {
		ofBody(a[0], "the data")
		return IfaceV{Nil: b.F, Id: rid}, true
	}
	ex.hooks["iface:SetReader"] = func(ex *Ex, a []Value) (Value, bool) {
		ofBody(a[0], "what the merged data is put into")
		s.ev = append(s.ev, srvEvent{kind: "setreader", args: []Value{a[1]}})
		return nil, true
	}
	readAll := func(ex *Ex, a []Value) (Value, bool) {
		iv, _ := a[0].(IfaceV)
		if iv.Id == nil || iv.Id != rid {
			ex.failNow("message: the data stored is that of the received message", "another reader")
		}
		ok := ex.choose(ex.fresh("readok", BoolS))
		s.ev = append(s.ev, srvEvent{kind: "read", flag: ok})
		if ok {
			return TupleV{ex.sliceOf(content, "packetdata", types.Typ[types.Uint8]), ex.nilErr()}, true
		}
		return TupleV{ex.sliceOf(ex.strSeq(b.Var("partialdata", US("Str"))), "partial", types.Typ[types.Uint8]), ex.anyErr("read")}, true
	}
	ex.hooks["io/ioutil.ReadAll"] = readAll
	ex.hooks["io.ReadAll"] = readAll
	mf := w.namedIn("go808", "MultipartFile")
	file := func(v Value) {
		if p, ok := v.(PtrV); ok {
			v = ex.load(p)
		}
		sv, ok := v.(StructV)
		if !ok || !received {
			ex.unsupported("a multi-part file")
		}
		hv := mv.F[fieldIndex(mt, "Header")].(StructV)
		pkt, _ := hv.F[fieldIndex(ht, "Packet")].(PtrV)
		if pkt.O == nil {
			ex.failNow("message: only sub-packets are stored", "no sub-packet data")
			return
		}
		pt := w.namedIn("protocol", "Packet")
		l := "message: a part is filed under its terminal, message id, tag and count"
		ex.assertEq(l, sv.F[fieldIndex(mf, "IccID")], hv.F[fieldIndex(ht, "IccID")])
		ex.assertEq(l, sv.F[fieldIndex(mf, "MsgID")], hv.F[fieldIndex(ht, "MsgID")])
		ex.assertEq(l, sv.F[fieldIndex(mf, "Tag")], tag)
		ex.assertEq(l, sv.F[fieldIndex(mf, "Sum")], ex.load(pkt).(StructV).F[fieldIndex(pt, "Sum")])
	}
	merged := b.C(32, 0x5002)
	both := func(name string, h func(ex *Ex, a []Value) (Value, bool)) {
		ex.hooks["("+pk+".MultipartFile)."+name] = h
		ex.hooks["(*"+pk+".MultipartFile)."+name] = h
	}
	both("Write", func(ex *Ex, a []Value) (Value, bool) {
		file(a[0])
		ok := ex.choose(ex.fresh("stored", BoolS))
		ex.assertEq("message: a part is stored under its number", a[1], b.Var("message.Seq", BV(16)))
		ex.assertEq("message: a part's data is stored", StrV{ex.content(asSlice(ex, a[2]))}, StrV{content})
		s.ev = append(s.ev, srvEvent{kind: "write", flag: ok})
		if ok {
			return ex.nilErr(), true
		}
		return ex.anyErr("write"), true
	})
	both("IsFull", func(ex *Ex, a []Value) (Value, bool) {
		file(a[0])
		ok := ex.choose(ex.fresh("full", BoolS))
		s.ev = append(s.ev, srvEvent{kind: "full", flag: ok})
		return b.Bool(ok), true
	})
	both("Merge", func(ex *Ex, a []Value) (Value, bool) {
		file(a[0])
		ok := ex.choose(ex.fresh("merged", BoolS))
		s.ev = append(s.ev, srvEvent{kind: "merge", flag: ok})
		if ok {
			return TupleV{IfaceV{Nil: b.F, Id: merged}, ex.nilErr()}, true
		}
		return TupleV{ex.nilIface(), ex.anyErr("merge")}, true
	})
	ex.hooks["iface:Close"] = func(ex *Ex, a []Value) (Value, bool) {
		iv, _ := a[0].(IfaceV)
		if iv.Id != merged {
			return nil, false
		}
		s.ev = append(s.ev, srvEvent{kind: "readerclose"})
		return ex.nilErr(), true
	}
	record := func(kind string) func(ex *Ex, a []Value) (Value, bool) {
		return func(ex *Ex, a []Value) (Value, bool) {
			e := srvEvent{kind: kind}
			if p, ok := a[0].(PtrV); ok {
				e.self = p.O
			}
			if p, ok := a[1].(PtrV); ok && p.O != nil {
				e.msg = ex.load(p)
			}
			if kind == "reply" {
				e.key = asTerm(ex, a[2])
			}
			s.ev = append(s.ev, e)
			if kind == "reply" {
				if ex.choose(ex.fresh("replied", BoolS)) {
					return TupleV{ex.fresh("serial", BV(16)), ex.nilErr()}, true
				}
				return TupleV{b.C(16, 0), ex.anyErr("send")}, true
			}
			return nil, true
		}
	}
	reply, take := w.method(s.st, "Reply"), messageMethod(w)
	if reply == nil || take == nil {
		ex.unsupported("Session.Reply or the handling of responses not found")
	}
	ex.hooks[reply.String()] = record("reply")
	ex.hooks[take.String()] = record("message")

	isOwnIn := func(label string, in bool) {
		if in {
			ex.assert(label, s.ownIn, nil)
		} else {
			ex.assert(label, b.Not(s.ownIn), nil)
		}
	}
	gone := func() {
		isOwnIn("table: a closed session is not in the table", false)
		if withClose {
			ex.assert("table: the close handler is called once", b.Bool(s.closeH == 1), nil)
		} else {
			ex.assert("table: the close handler is called once", b.Bool(s.closeH == 0), nil)
		}
	}
	timerOwn := func() {
		for _, t := range s.timerEv {
			ex.assertEq("table: the timer is used with the session's own key", StrV{ex.strSeq(t.key)}, StrV{ex.strSeq(s.timerKey(s.own))})
		}
	}
	lastTimer := func() string {
		if n := len(s.timerEv); n > 0 {
			return s.timerEv[n-1].kind
		}
		return ""
	}
	isGone := func() bool { return invoked || closed && (!registered || ex.valid(b.Not(s.ownIn))) }
	settled := func() {
		if isGone() {
			gone()
		} else {
			isOwnIn("table: an accepted session is in the table until it is closed", true)
			ex.assert("table: the close handler is called only on close", b.Bool(s.closeH == 0), nil)
		}
	}
	ex.service = &Service{
		match: func(fr *Frame, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
			return !begun && reaches(body, func(in ssa.Instruction) bool {
				c, ok := in.(*ssa.Call)
				if !ok {
					return false
				}
				f := c.Call.StaticCallee()
				return f != nil && f.String() == "(*"+linkPkg+".Session).Receive"
			})
		},
		shared: func(o *Obj) bool { return o == s.tab || o == s.p.O },
		begin: func() {
			begun = true
			ex.assert("table: a session is accepted in full before messages are received", b.Bool(s.ownObj != nil && cb != nil && len(s.timerEv) > 0), nil)
			ex.assert("the lock is released", b.Bool(!s.anyLock()), nil)
			if s.ownObj == nil || cb == nil {
				ex.cut()
			}
			timerOwn()
			settled()
			if isGone() {
				ex.assert("table: a closed session has no timer", b.Bool(lastTimer() == "Remove"), nil)
			} else {
				ex.assert("table: an accepted session has a timer", b.Bool(lastTimer() == "Update"), nil)
			}
			at, nt = len(s.ev), len(s.timerEv)
		},
		cut: func() {
			ex.ok("no-panic")
			ex.assert("the lock is released", b.Bool(!s.anyLock()), nil)
			if !received {
				ex.failNow("message: each round receives a message", "no message is received")
				return
			}
			timerOwn()
			settled()
			checkRound(ex, w, s, s.ev[at:], s.timerEv[nt:], mv, merge, isPacket, typedNil, merged)
		},
	}
	hs := w.Prog.LookupMethod(s.handler.T, nil, "HandleSession")
	if hs == nil {
		ex.failNow("exists", "the handler given to the link has no HandleSession")
		return
	}
	ex.callFn(hs, []Value{s.handler.V, ls}, nil, "root")
	ex.ok("no-panic")
	ex.assert("the lock is released", b.Bool(!s.anyLock()), nil)
	ex.assert("message: a session is served until receiving fails", b.Bool(begun && !received), nil)
	ex.assert("table: a session that is no longer served is closed", b.Bool(closed), nil)
	ex.assert("message: nothing is answered or dispatched without a message", b.Bool(len(s.ev) == at), nil)
	if closed && registered && !invoked {
		invoke()
		ex.ok("no-panic")
	}
	timerOwn()
	gone()
	ex.assert("table: a closed session has no timer", b.Bool(lastTimer() == "Remove"), nil)
}

// checkRound: what was done with one received message.
func checkRound(ex *Ex, w *World, s *srvEnv, ev, tev []srvEvent, mv StructV, merge bool, isPacket, typedNil, merged *Term) {
	b := ex.b
	mt, ht := w.namedIn("protocol", "Message"), w.namedIn("protocol", "Header")
	body := mv.F[fieldIndex(mt, "Body")].(IfaceV)
	hv := mv.F[fieldIndex(mt, "Header")].(StructV)
	id := hv.F[fieldIndex(ht, "MsgID")].(*Term)
	count := map[string]int{}
	pos := map[string]int{}
	ok := map[string]bool{}
	for i, e := range ev {
		count[e.kind]++
		pos[e.kind] = i
		ok[e.kind] = e.flag
		switch e.kind {
		case "reply", "message", "handler":
			ex.assert("message: messages are handled for the own session", b.Bool(e.self != nil && e.self == s.ownObj), nil)
			if e.msg == nil {
				ex.failNow("message: the message handled is the one received", "no message")
				continue
			}
			got, isS := e.msg.(StructV)
			if !isS {
				ex.failNow("message: the message handled is the one received", "no message")
				continue
			}
			ex.assertEq("message: the message handled is the one received", got.F[fieldIndex(mt, "Header")], hv)
			if e.kind != "reply" {
				ex.assert("message: the message handled is the one received", ex.goEq(got.F[fieldIndex(mt, "Body")], body), nil)
			}
		}
		if e.kind == "handler" {
			ex.assertEq("message: a message goes to the handler registered for its id", e.key, id)
		}
		if e.kind == "setreader" {
			iv, _ := e.args[0].(IfaceV)
			ex.assert("message: the merged message carries the merged data", b.Bool(iv.Id == merged), nil)
		}
	}
	only := func(label string, kinds ...string) {
		n := 0
		for _, k := range kinds {
			n += count[k]
		}
		ex.assert(label, b.Bool(n == len(ev)), nil)
	}
	result := func(label string, v uint64) {
		if !ex.assert(label, b.Bool(count["reply"] == 1), nil) {
			return
		}
		ex.assertEq(label, ev[pos["reply"]].key, b.C(8, v))
	}
	dispatched := func() {
		ex.assert("message: a message is handed to pending requests once", b.Bool(count["message"] == 1), nil)
		reg := b.App("registered", BoolS, id)
		if ex.choose(reg) {
			ex.assert("message: a message is dispatched to its handler once", b.Bool(count["handler"] == 1), nil)
			ex.assert("message: pending requests come before the handler", b.Bool(pos["message"] < pos["handler"]), nil)
			up := false
			for _, t := range tev {
				up = up || t.kind == "Update"
			}
			ex.assert("table: a dispatched message restarts the idle period", b.Bool(up), nil)
		} else {
			ex.assert("message: a message without a handler is dropped", b.Bool(count["handler"] == 0), nil)
		}
	}
	for _, t := range tev {
		ex.assert("table: messages do not stop the timer", b.Bool(t.kind == "Update" || !ex.feasibleOwn(s)), nil)
	}
	if ex.choose(b.Or(body.Nil, typedNil)) {
		result("message: a message without a body is answered as unsupported", unsupportedCode(w))
		only("message: a message without a body is only answered", "reply")
		return
	}
	prop := hv.F[fieldIndex(ht, "Property")].(*Term)
	sub := ex.choose(b.Ne(b.BAnd(prop, b.C(16, 0x2000)), b.C(16, 0)))
	if !merge || !sub || !ex.choose(isPacket) {
		dispatched()
		only("message: a whole message is only dispatched", "message", "handler")
		return
	}
	ex.assert("message: a part's data is read once", b.Bool(count["read"] == 1), nil)
	fail, success := resultCode(w, "T808_0x8001ResultFail"), resultCode(w, "T808_0x8001ResultSuccess")
	if !ok["read"] {
		result("message: a part that cannot be read is answered as failed", fail)
		only("message: a part that cannot be read is only answered", "read", "reply")
		return
	}
	ex.assert("message: a part is stored once", b.Bool(count["write"] == 1), nil)
	if !ok["write"] {
		result("message: a part that cannot be stored is answered as failed", fail)
		only("message: a part that cannot be stored is only answered", "read", "write", "reply")
		return
	}
	result("message: a stored part is answered as successful", success)
	ex.assert("message: a part is stored before it is answered", b.Bool(pos["write"] < pos["reply"]), nil)
	ex.assert("message: completeness is judged after the part is stored", b.Bool(count["full"] == 1 && pos["full"] > pos["write"]), nil)
	if !ok["full"] {
		only("message: an incomplete upload is not dispatched", "read", "write", "reply", "full")
		return
	}
	ex.assert("message: a complete upload is merged once", b.Bool(count["merge"] == 1 && pos["merge"] > pos["full"]), nil)
	if !ok["merge"] {
		only("message: an upload that cannot be merged is not dispatched", "read", "write", "reply", "full", "merge")
		return
	}
	ex.assert("message: the merged data is put into the message before it is handled", b.Bool(count["setreader"] == 1 && pos["setreader"] < pos["message"]), nil)
	dispatched()
	h := pos["message"]
	if count["handler"] > 0 {
		h = pos["handler"]
	}
	ex.assert("message: the merged data is released after the message is handled", b.Bool(count["readerclose"] == 1 && pos["readerclose"] > h), nil)
	only("message: a merged upload is dispatched once", "read", "write", "reply", "full", "merge", "setreader", "message", "handler", "readerclose")
}

func (ex *Ex) feasibleOwn(s *srvEnv) bool { return !ex.valid(ex.b.Not(s.ownIn)) }

func resultCode(w *World, name string) uint64 {
	if c, ok := w.Pkgs["protocol"].Members[name].(*ssa.NamedConst); ok {
		return uint64(c.Value.Int64())
	}
	return 255
}
func unsupportedCode(w *World) uint64 { return resultCode(w, "T808_0x8001ResultUnsupported") }
