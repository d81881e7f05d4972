package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Proof roots for Session: serial numbers and pending requests. Other goroutines
// are present as interference: an atomic load returns any admissible value, a
// compare-and-swap fails at will, and taking the lock replaces the guarded state
// by any admissible one. Each method is proved to change the shared state only
// by the atomic steps its contract names.

type commitStep struct{ old, new *Term }

type pendSection struct {
	n     int
	N     *Term
	key   string // the field the code searched by, "" when nothing was looked at
	after *Seq
	used  bool // the code looked at the pending requests
	arr   *Obj
	want  *Term
	f     *Term
}

type sessEnv struct {
	ex      *Ex
	w       *World
	st      *types.Named
	p       PtrV
	learn   bool
	held    int
	commits []commitStep
	icc     []*Term // values read as terminal number
	iccSet  []*Term
	sid     *Term
	sends   []Value
	sendErr bool
	fi      int // field of the pending requests
	et      types.Type
	mi, si  int // message id and serial number of a pending request
	ci      int // its callback
	secs    []*pendSection
	cur     *pendSection
	arrs    map[*Obj]bool
	calls   []*Term // positions of the callbacks called
	onCall  func(k *Term, sec int, args []Value)
	order   []string
	find    func(sec int) (field int, val *Term) // what a section looks for
	casFail bool
	cnt0    *Term
}

// fieldKind classifies a field of Session.
func (s *sessEnv) fieldKind(i int) string {
	t := fieldType(s.st, i)
	switch typeName(t) {
	case "sync/atomic.Uint32", "sync/atomic.Int32":
		return "counter"
	case "sync/atomic.Uint64":
		return "icc"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch w, _ := s.ex.intWidth(t); w {
		case 32, 16:
			return "counter"
		case 64:
			return "icc"
		}
	case *types.Slice:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			return "pending"
		}
	}
	return ""
}

func (s *sessEnv) newSession(name string) PtrV {
	ex, b := s.ex, s.ex.b
	sv := StructV{F: append([]Value{}, ex.zero(s.st).(StructV).F...)}
	for i := range sv.F {
		t := fieldType(s.st, i)
		switch t.String() {
		case "*github.com/funny/link.Session":
			sv.F[i] = ex.ptrNew("linksession", OpqV{Kind: "linksession"})
		case "*" + s.st.Obj().Pkg().Path() + ".Server":
			sv.F[i] = ex.ptrNew("server", OpqV{Kind: "server"})
		}
		if s.fieldKind(i) == "icc" {
			sv.F[i] = b.Var(name+".icc", BV(64))
		}
	}
	return ex.ptrTo(ex.newObj(name, sv, s.st))
}

func (s *sessEnv) counter(hint string, w int) *Term {
	v := s.ex.fresh(hint, BV(w))
	s.ex.assume(s.ex.b.ULe(v, s.ex.b.C(w, 255)))
	return v
}

func (s *sessEnv) where(p PtrV) (string, bool) {
	if p.O != s.p.O || len(p.Path) == 0 {
		return "", false
	}
	return s.fieldKind(p.Path[0].F), true
}

func newSessEnv(ex *Ex, w *World) *sessEnv {
	s := &sessEnv{ex: ex, w: w, st: w.namedIn("go808", "Session"), fi: -1, arrs: map[*Obj]bool{}}
	b := ex.b
	s.sid = b.Var("sessionid", BV(64))
	ex.hooks["(*github.com/funny/link.Session).ID"] = func(ex *Ex, a []Value) (Value, bool) { return s.sid, true }
	ex.hooks["(*github.com/funny/link.Session).Send"] = func(ex *Ex, a []Value) (Value, bool) {
		if s.learn {
			return ex.nilErr(), true
		}
		s.order = append(s.order, "send")
		s.sends = append(s.sends, a[1])
		if s.sendErr = !ex.choose(ex.fresh("sendok", BoolS)); s.sendErr {
			return ex.anyErr("send"), true
		}
		return ex.nilErr(), true
	}
	ex.hooks["atomic.Load"] = func(ex *Ex, a []Value) (Value, bool) {
		k, ok := s.where(asPtr(ex, a[0]))
		if !ok || s.learn {
			return nil, false
		}
		switch k {
		case "counter":
			return s.counter("loaded", 32), true
		case "icc":
			v := ex.fresh("icc", BV(64))
			s.icc = append(s.icc, v)
			return v, true
		}
		return nil, false
	}
	ex.hooks["atomic.Store"] = func(ex *Ex, a []Value) (Value, bool) {
		k, ok := s.where(asPtr(ex, a[0]))
		if !ok || s.learn {
			return nil, false
		}
		if k == "counter" {
			ex.failNow("the counter is only changed atomically from the value read", "plain store")
			return nil, true
		}
		s.iccSet = append(s.iccSet, asTerm(ex, a[1]))
		return nil, true
	}
	ex.hooks["atomic.Add"] = func(ex *Ex, a []Value) (Value, bool) {
		k, ok := s.where(asPtr(ex, a[0]))
		if !ok || s.learn || k != "counter" {
			return nil, false
		}
		old := s.counter("loaded", 32)
		n := b.Add(old, asTerm(ex, a[1]))
		s.commits = append(s.commits, commitStep{old, n})
		return n, true
	}
	ex.hooks["atomic.CAS"] = func(ex *Ex, a []Value) (Value, bool) {
		k, ok := s.where(asPtr(ex, a[0]))
		if !ok || s.learn || k != "counter" {
			return nil, false
		}
		if !ex.choose(ex.fresh("cas", BoolS)) {
			s.casFail = true
			return b.F, true
		}
		ex.assume(b.ULe(asTerm(ex, a[1]), b.C(32, 255))) // it was the counter's value
		s.commits = append(s.commits, commitStep{asTerm(ex, a[1]), asTerm(ex, a[2])})
		return b.T, true
	}
	ex.retry = func() bool { return s.casFail }
	ex.hooks["lock"] = func(ex *Ex, a []Value) (Value, bool) {
		mp := asPtr(ex, a[0])
		if mp.O != s.p.O || s.learn {
			return nil, true
		}
		switch a[1].(OpqV).Kind {
		case "Lock":
			ex.assert("the lock is not taken twice", b.Bool(s.held == 0), nil)
			s.held++
			s.enter()
		case "Unlock":
			ex.assert("only a held lock is released", b.Bool(s.held == 1), nil)
			s.leave()
			s.held--
		}
		return nil, true
	}
	ex.monitor = &Monitor{acc: func(ex *Ex, p PtrV, write bool) {
		if s.learn {
			return
		}
		if s.cur != nil && (p.O == s.cur.arr || p.O == s.p.O && (len(p.Path) == 0 || p.Path[0].F == s.fi)) {
			s.cur.used = true
		}
		if s.held > 0 {
			return
		}
		if k, ok := s.where(p); ok && k != "" || s.arrs[p.O] {
			ex.failNow("shared state is only accessed atomically or under the lock", fmt.Sprintf("field kind %q at %s", k, ex.where()))
		}
	}}
	return s
}

// enter: the lock has been taken, the guarded state is whatever others left.
func (s *sessEnv) enter() {
	ex, b := s.ex, s.ex.b
	s.order = append(s.order, "lock")
	sv := s.p.O.Val.(StructV)
	fs := append([]Value{}, sv.F...)
	for i := range fs {
		if s.fieldKind(i) == "counter" {
			if t, ok := fs[i].(*Term); ok {
				v := s.counter("locked", t.S.W)
				fs[i] = v
				s.cnt0 = v
			}
		}
	}
	if s.fi >= 0 {
		sec := &pendSection{n: len(s.secs)}
		s.secs = append(s.secs, sec)
		s.cur = sec
		sec.N = b.Var(fmt.Sprintf("pending%d", sec.n), BV(64))
		ex.assume(b.And(b.SLe(b.I(0), sec.N), b.SLt(sec.N, b.I(1<<20))))
		sec.f = b.Var(fmt.Sprintf("match%d", sec.n), BV(64))
		ex.assume(b.And(b.SLe(b.I(0), sec.f), b.SLe(sec.f, sec.N)))
		l := &pendBase{s: s, sec: sec}
		seq := ex.win(l, b.I(0), sec.N)
		sl := ex.sliceOf(seq, fmt.Sprintf("requests%d", sec.n), s.et)
		s.arrs[sl.Arr.O] = true
		sec.arr = sl.Arr.O
		fs[s.fi] = sl
		ex.addInput(fmt.Sprintf("pending requests at section %d", sec.n), sec.N)
	}
	s.p.O.Val = StructV{F: fs}
}

func (s *sessEnv) leave() {
	ex := s.ex
	s.order = append(s.order, "unlock")
	sv := s.p.O.Val.(StructV)
	for i := range sv.F {
		if s.fieldKind(i) == "counter" {
			if t, ok := sv.F[i].(*Term); ok && s.cnt0 != nil && t != s.cnt0 {
				s.commits = append(s.commits, commitStep{s.cnt0, t})
			}
		}
	}
	if s.cur != nil && !s.cur.used {
		s.secs = s.secs[:len(s.secs)-1]
		s.cur = nil
		if n := len(s.order); n >= 2 && s.order[n-2] == "lock" {
			s.order = s.order[:n-2] // this section's lock and unlock
		}
	}
	if s.cur != nil {
		s.cur.after = ex.content(asSlice(ex, sv.F[s.fi]))
		if sl := asSlice(ex, sv.F[s.fi]); sl.Arr.O != nil {
			s.arrs[sl.Arr.O] = true
		}
		s.cur = nil
	}
}

// pendBase: the pending requests found when the lock was taken. The searched
// property holds at position f only (f = N: nowhere).
type pendBase struct {
	s   *sessEnv
	sec *pendSection
}

func (l *pendBase) Key() string { return fmt.Sprintf("pend%d", l.sec.n) }
func (l *pendBase) At(ex *Ex, i *Term) Value {
	s, b := l.s, ex.b
	k := fmt.Sprintf("pend%d:%d", l.sec.n, i.ID)
	m := b.App(fmt.Sprintf("pend%d.msg", l.sec.n), BV(16), i)
	r := b.App(fmt.Sprintf("pend%d.ser", l.sec.n), BV(16), i)
	if !ex.seen[k] {
		ex.seen[k] = true
		ex.assume(b.And(b.ULe(b.C(16, 1), r), b.ULe(r, b.C(16, 255))))
		if s.find != nil {
			fld, val := s.find(l.sec.n)
			x := m
			if fld == s.si {
				x = r
			}
			if val != nil {
				in := b.And(b.SLe(b.I(0), i), b.SLt(i, l.sec.N))
				ex.assume(b.Implies(in, b.Eq(b.Eq(x, val), b.Eq(i, l.sec.f))))
				ex.indexFact(i, b.SLe(i, l.sec.f))
			}
		}
	}
	sv := StructV{F: append([]Value{}, ex.zero(s.et).(StructV).F...)}
	set := func(f int, t *Term) {
		if w, _ := ex.intWidth(fieldType(s.et, f)); w > 16 {
			t = b.Zext(w, t)
		}
		sv.F[f] = t
	}
	set(s.mi, m)
	set(s.si, r)
	n := l.sec.n
	sv.F[s.ci] = FuncV{Nil: b.F, Id: b.Add(b.Extract(31, 0, i), b.C(32, uint64(n)<<24)), Mod: func(ex *Ex, args []Value) Value {
		s.calls = append(s.calls, i)
		if s.onCall != nil {
			s.onCall(i, n, args)
		}
		return nil
	}}
	return sv
}

// learnPending finds out how pending requests are stored, by making one.
func (s *sessEnv) learnPending() bool {
	ex, b := s.ex, s.ex.b
	fn := s.w.method(s.st, "Request")
	if fn == nil {
		ex.failNow("exists", "Session.Request not found")
		return false
	}
	s.learn = true
	s.p = s.newSession("probe")
	id := b.Var("probe.msgid", BV(16))
	prev := ex.hooks["iface:MsgID"]
	ex.hooks["iface:MsgID"] = func(ex *Ex, a []Value) (Value, bool) { return id, true }
	for i := range s.p.O.Val.(StructV).F {
		if s.fieldKind(i) == "counter" {
			sv := s.p.O.Val.(StructV)
			fs := append([]Value{}, sv.F...)
			w, _ := ex.intWidth(fieldType(s.st, i))
			if w == 0 {
				w = 32
			}
			fs[i] = b.C(w, 40)
			s.p.O.Val = StructV{F: fs}
		}
	}
	cbID := b.C(32, 0x5005)
	ex.callFn(fn, []Value{s.p, IfaceV{Nil: b.F, Id: b.C(32, 9)}, FuncV{Nil: b.F, Id: cbID, Mod: func(ex *Ex, a []Value) Value { return nil }}}, nil, "probe")
	ex.hooks["iface:MsgID"] = prev
	s.learn = false
	sv := s.p.O.Val.(StructV)
	for i := range sv.F {
		if s.fieldKind(i) != "pending" {
			continue
		}
		sl := asSlice(ex, sv.F[i])
		if !sl.Len.isConst() || sl.Len.Val != 1 {
			continue
		}
		e, ok := ex.seqAt(ex.content(sl), b.I(0)).(StructV)
		if !ok {
			continue
		}
		et := fieldType(s.st, i).Underlying().(*types.Slice).Elem()
		mi, si, ci := -1, -1, -1
		for j, v := range e.F {
			switch x := v.(type) {
			case *Term:
				if x == id || x.Op == OZext && x.Args[0] == id {
					mi = j
				} else if x.isConst() && x.Val == 41 {
					si = j
				}
			case FuncV:
				if x.Id == cbID {
					ci = j
				}
			}
		}
		if mi >= 0 && si >= 0 && ci >= 0 {
			s.fi, s.et, s.mi, s.si, s.ci = i, et, mi, si, ci
			return true
		}
	}
	ex.unsupported("pending requests are not kept as a list of structures")
	return false
}

// holds: element m of the section's list is still pending afterwards.
func (s *sessEnv) stillThere(sec *pendSection, m *Term, id *Term, at ...*Term) *Term {
	ex, b := s.ex, s.ex.b
	n := ex.seqLen(sec.after)
	r := b.F
	for _, p := range at {
		in := b.And(b.SLe(b.I(0), p), b.SLt(p, n))
		if !ex.feasible(in) {
			continue
		}
		if !ex.valid(in) {
			// only look where there is an element
			continue
		}
		if e, ok := ex.seqAt(sec.after, p).(StructV); ok {
			if f, ok := e.F[s.ci].(FuncV); ok && f.Id != nil {
				r = b.Or(r, b.Eq(f.Id, id))
			}
		}
	}
	return r
}

func cbIDof(b *TermBank, sec *pendSection, m *Term) *Term {
	return b.Add(b.Extract(31, 0, m), b.C(32, uint64(sec.n)<<24))
}

// othersKept: every pending request but the one at position f is still pending.
func (s *sessEnv) othersKept(label string, sec *pendSection) {
	ex, b := s.ex, s.ex.b
	m := ex.fresh("other", BV(64))
	ex.assume(b.And(b.SLe(b.I(0), m), b.SLt(m, sec.N), b.Ne(m, sec.f)))
	// one case per order of m, f and the end
	ex.choose(b.SLt(m, sec.f))
	ex.choose(b.Eq(m, b.Sub(sec.N, b.I(1))))
	ex.assert(label, s.stillThere(sec, m, cbIDof(b, sec, m), m, b.Sub(m, b.I(1)), sec.f), nil)
}

func (s *sessEnv) checkRemoved(label string, sec *pendSection) {
	ex, b := s.ex, s.ex.b
	if ex.choose(b.SLt(sec.f, sec.N)) {
		ex.assertEq(label+": one request is forgotten", ex.seqLen(sec.after), b.Sub(sec.N, b.I(1)))
	} else {
		ex.assertEq(label+": nothing is forgotten", ex.seqLen(sec.after), sec.N)
	}
	if ex.choose(b.Or(b.SLt(b.I(1), sec.N), b.And(b.SLt(b.I(0), sec.N), b.Eq(sec.f, sec.N)))) {
		s.othersKept(label+": all other requests stay pending", sec)
	}
}

func (s *sessEnv) checkAdded(sec *pendSection, msg, ser, cbID *Term) {
	ex, b := s.ex, s.ex.b
	n := ex.seqLen(sec.after)
	pos := sec.f
	if ex.choose(b.SLt(sec.f, sec.N)) {
		ex.assertEq("request: a newer request replaces the pending one with its message id", n, sec.N)
	} else {
		ex.assertEq("request: becomes pending next to the others", n, b.Add(sec.N, b.I(1)))
		pos = sec.N
	}
	okAt := func(p *Term) *Term {
		if !ex.valid(b.And(b.SLe(b.I(0), p), b.SLt(p, n))) {
			return b.F
		}
		e, ok := ex.seqAt(sec.after, p).(StructV)
		if !ok {
			return b.F
		}
		f, ok := e.F[s.ci].(FuncV)
		if !ok || f.Id == nil {
			return b.F
		}
		x := func(i int, w *Term) *Term {
			t := e.F[i].(*Term)
			return b.Eq(t, b.Zext(t.S.W, w))
		}
		return b.And(b.Eq(f.Id, cbID), x(s.mi, msg), x(s.si, ser))
	}
	ex.assert("request: pending under its message id, serial number and callback", b.Or(okAt(pos), okAt(b.Sub(n, b.I(1))), okAt(b.I(0))), nil)
	if ex.choose(b.Or(b.SLt(b.I(1), sec.N), b.And(b.SLt(b.I(0), sec.N), b.Eq(sec.f, sec.N)))) {
		m := ex.fresh("other", BV(64))
		ex.assume(b.And(b.SLe(b.I(0), m), b.SLt(m, sec.N), b.Ne(m, sec.f)))
		ex.choose(b.SLt(m, sec.f))
		ex.choose(b.Eq(m, b.Sub(sec.N, b.I(1))))
		ex.assert("request: all other requests stay pending", s.stillThere(sec, m, cbIDof(b, sec, m), m, b.Sub(m, b.I(1)), b.Add(m, b.I(1)), sec.f), nil)
	}
}

func (ex *Ex) feasible(c *Term) bool { return !ex.valid(ex.b.Not(c)) }

// serialChecks: one atomic step from a value to its successor, and the message
// handed to the connection carries it.
func (s *sessEnv) serialChecks(mt, ht *types.Named, id *Term, body Value, ret Value) (*Term, bool) {
	ex, b := s.ex, s.ex.b
	if len(s.commits) != 1 {
		ex.failNow("serial: each message advances the counter exactly once", fmt.Sprintf("%d steps", len(s.commits)))
		return nil, false
	}
	c := s.commits[0]
	w := c.old.S.W
	ex.assertEq("serial: the counter moves to the successor, from 255 to 1", c.new, b.Ite(b.Eq(c.old, b.C(w, 255)), b.C(w, 1), b.Add(c.old, b.C(w, 1))))
	ser := c.new
	if w > 16 {
		ser = b.Extract(15, 0, c.new)
	}
	if len(s.sends) != 1 {
		ex.failNow("serial: one message is sent", fmt.Sprintf("%d messages", len(s.sends)))
		return nil, false
	}
	iv, _ := s.sends[0].(IfaceV)
	if iv.T == nil || !types.Identical(iv.T, mt) {
		ex.failNow("serial: one message is sent", "not a protocol.Message")
		return nil, false
	}
	mv := iv.V.(StructV)
	hv := mv.F[fieldIndex(mt, "Header")].(StructV)
	ex.assertEq("serial: the header carries the serial number", hv.F[fieldIndex(ht, "MsgSerialNo")], ser)
	ex.assertEq("serial: the header carries the body's message id", hv.F[fieldIndex(ht, "MsgID")], id)
	got := hv.F[fieldIndex(ht, "IccID")].(*Term)
	okIcc := b.F
	for _, v := range s.icc {
		okIcc = b.Or(okIcc, b.Eq(got, v))
	}
	if len(s.icc) == 0 {
		okIcc = b.Eq(got, b.Var("session.icc", BV(64)))
	}
	ex.assert("serial: the header carries the terminal's number", okIcc, nil)
	ex.assertEq("serial: the header has no attributes of its own", hv.F[fieldIndex(ht, "Property")], b.C(16, 0))
	if body != nil {
		ex.assertEq("serial: the body is the given one", mv.F[fieldIndex(mt, "Body")], body)
	}
	tv, ok := ret.(TupleV)
	if !ok || len(tv) != 2 {
		ex.failNow("exists", "unexpected results")
		return nil, false
	}
	ex.assert("serial: an error exactly when the connection refuses", b.Eq(isErr(ex, tv[1]), b.Bool(s.sendErr)), nil)
	if !s.sendErr {
		ex.assertEq("serial: the number returned is the one sent", tv[0], ser)
	}
	return ser, true
}

func messageMethod(w *World) *ssa.Function {
	st := w.namedIn("go808", "Session")
	if m := w.method(st, "message"); m != nil {
		return m
	}
	mp := types.NewPointer(w.namedIn("protocol", "Message"))
	ms := w.Prog.MethodSets.MethodSet(types.NewPointer(st))
	for i := 0; i < ms.Len(); i++ {
		sg := ms.At(i).Type().(*types.Signature)
		if sg.Results().Len() == 0 && sg.Params().Len() == 1 && types.Identical(sg.Params().At(0).Type(), mp) {
			return w.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

var responseTypes = []struct {
	id   uint64
	name string
}{{0x0001, "T808_0x0001"}, {0x0104, "T808_0x0104"}, {0x0201, "T808_0x0201"}, {0x0302, "T808_0x0302"},
	{0x0500, "T808_0x0500"}, {0x0700, "T808_0x0700"}, {0x0802, "T808_0x0802"}, {0x0805, "T808_0x0805"}}

func sessJobs(w *World) []job {
	if w.Pkgs["go808"] == nil {
		return nil
	}
	mt, ht := w.namedIn("protocol", "Message"), w.namedIn("protocol", "Header")
	st := w.namedIn("go808", "Session")
	var js []job
	js = append(js, job{"sess:Send", func(w *World, e *Engine) {
		fn := w.method(st, "Send")
		if !w.need(e, fn, "Session.Send") {
			return
		}
		e.Explore(func(ex *Ex) {
			b := ex.b
			s := newSessEnv(ex, w)
			s.p = s.newSession("session")
			id := b.Var("MsgID", BV(16))
			ex.hooks["iface:MsgID"] = func(ex *Ex, a []Value) (Value, bool) { return id, true }
			body := IfaceV{Nil: b.F, Id: b.C(32, 9)}
			r := ex.callFn(fn, []Value{s.p, body}, nil, "root")
			ex.ok("no-panic")
			s.serialChecks(mt, ht, id, body, r)
		})
	}})
	js = append(js, job{"sess:Reply", func(w *World, e *Engine) {
		fn := w.method(st, "Reply")
		if !w.need(e, fn, "Session.Reply") {
			return
		}
		e.Explore(func(ex *Ex) {
			b := ex.b
			s := newSessEnv(ex, w)
			s.p = s.newSession("session")
			mv := opaqueMessage(ex, mt, ht, "message")
			mp := ex.ptrTo(ex.newObj("message", mv, mt))
			res := b.Var("result", BV(8))
			r := ex.callFn(fn, []Value{s.p, mp, res}, nil, "root")
			ex.ok("no-panic")
			if _, ok := s.serialChecks(mt, ht, b.C(16, 0x8001), nil, r); !ok {
				return
			}
			bv, _ := s.sends[0].(IfaceV).V.(StructV).F[fieldIndex(mt, "Body")].(IfaceV)
			checkReply(ex, w, bv, b.Var("message.MsgID", BV(16)), b.Var("message.MsgSerialNo", BV(16)), res)
			ex.assertEq("reply: the message is left alone", ex.getPath(mp.O.Val, nil), mv)
		})
	}})
	js = append(js, job{"sess:Request", func(w *World, e *Engine) {
		fn := w.method(st, "Request")
		if !w.need(e, fn, "Session.Request") {
			return
		}
		e.Explore(func(ex *Ex) {
			b := ex.b
			s := newSessEnv(ex, w)
			if !s.learnPending() {
				return
			}
			s.p = s.newSession("session")
			id := b.Var("MsgID", BV(16))
			ex.hooks["iface:MsgID"] = func(ex *Ex, a []Value) (Value, bool) { return id, true }
			body := IfaceV{Nil: b.F, Id: b.C(32, 9)}
			group := ex.chooseN(3) // without callback; what is registered; what is withdrawn
			withCb := group > 0
			cbID := b.C(32, 0x5005)
			cb := FuncV{Nil: b.T}
			if withCb {
				cb = FuncV{Nil: b.F, Id: cbID, Mod: func(ex *Ex, a []Value) Value {
					ex.failNow("request: its callback is not called before a response", "called by Request")
					return nil
				}}
			}
			s.find = func(sec int) (int, *Term) {
				if sec == 0 {
					return s.mi, id
				}
				if len(s.commits) == 1 {
					return s.si, b.Extract(15, 0, s.commits[0].new)
				}
				return s.si, nil
			}
			r := ex.callFn(fn, []Value{s.p, body, cb}, nil, "root")
			ex.ok("no-panic")
			ex.assert("the lock is released", b.Bool(s.held == 0), nil)
			ser, ok := s.serialChecks(mt, ht, id, body, r)
			if !ok {
				return
			}
			var secs []*pendSection
			for _, x := range s.secs {
				if x.after != nil {
					secs = append(secs, x)
				}
			}
			if !withCb {
				for _, x := range secs {
					ex.assertEq("request: without callback nothing becomes pending", ex.seqLen(x.after), x.N)
				}
				return
			}
			if len(secs) == 0 {
				ex.failNow("request: pending under its message id, serial number and callback", "never registered")
				return
			}
			early := true
			for _, o := range s.order {
				if o == "send" {
					early = false
					break
				}
				if o == "unlock" {
					break
				}
			}
			ex.assert("request: pending before it is sent, so that no response is missed", b.Bool(early), nil)
			if group == 1 {
				s.checkAdded(secs[0], id, ser, cbID)
			}
			if group == 2 && s.sendErr && len(secs) < 2 {
				ex.failNow("request: withdrawn when sending failed", "it stays pending")
			}
			if len(secs) > 1 && group == 2 {
				ex.assert("request: withdrawn only when sending failed", b.Bool(s.sendErr && len(secs) == 2), nil)
				s.checkRemoved("withdrawn request", secs[1])
			}
		})
	}})
	for _, rt := range append(responseTypes, struct {
		id   uint64
		name string
	}{0, "other"}) {
		rt := rt
		js = append(js, job{"sess:message:" + rt.name, func(w *World, e *Engine) {
			fn := messageMethod(w)
			if !w.need(e, fn, "Session.message") {
				return
			}
			e.Explore(func(ex *Ex) { messageRoot(ex, w, fn, mt, ht, rt.id, rt.name) })
		}})
	}
	return js
}

func checkReply(ex *Ex, w *World, bv IfaceV, id, ser, res *Term) {
	t := w.namedIn("protocol", "T808_0x8001")
	p, ok := bv.V.(PtrV)
	if bv.T == nil || !ok || pointeeName(bv.T) != "T808_0x8001" {
		ex.failNow("reply: is a general reply", "another body")
		return
	}
	rv := ex.getPath(p.O.Val, p.Path).(StructV)
	ex.assertEq("reply: carries the message's serial number", rv.F[fieldIndex(t, "ReplyMsgSerialNo")], ser)
	ex.assertEq("reply: carries the message's id", rv.F[fieldIndex(t, "ReplyMsgID")], id)
	ex.assertEq("reply: carries the result", rv.F[fieldIndex(t, "Result")], res)
}

func messageRoot(ex *Ex, w *World, fn *ssa.Function, mt, ht *types.Named, id uint64, name string) {
	b := ex.b
	s := newSessEnv(ex, w)
	if !s.learnPending() {
		return
	}
	s.p = s.newSession("session")
	mv := opaqueMessage(ex, mt, ht, "message").(StructV)
	hv := mv.F[fieldIndex(mt, "Header")].(StructV)
	midT := hv.F[fieldIndex(ht, "MsgID")].(*Term)
	icc := hv.F[fieldIndex(ht, "IccID")].(*Term)
	ex.addInput("MsgID", midT)
	var reply *Term
	if name == "other" {
		for _, r := range responseTypes {
			ex.assume(b.Ne(midT, b.C(16, r.id)))
		}
		mv.F[fieldIndex(mt, "Body")] = IfaceV{Nil: b.F, Id: b.C(32, 99)}
	} else {
		ex.assume(b.Eq(midT, b.C(16, id)))
		bt := w.namedIn("protocol", name)
		if bt == nil || fieldIndex(bt, "ReplyMsgSerialNo") < 0 {
			ex.failNow("exists", name+".ReplyMsgSerialNo not found")
			return
		}
		bs := StructV{F: append([]Value{}, ex.zero(bt).(StructV).F...)}
		reply = b.Var("ReplyMsgSerialNo", BV(16))
		ex.addInput("ReplyMsgSerialNo", reply)
		bs.F[fieldIndex(bt, "ReplyMsgSerialNo")] = reply
		mv.F[fieldIndex(mt, "Body")] = IfaceV{Nil: b.F, T: types.NewPointer(bt), V: ex.ptrTo(ex.newObj("body", bs, bt))}
	}
	mp := ex.ptrTo(ex.newObj("message", mv, mt))
	s.find = func(sec int) (int, *Term) { return s.si, reply }
	s.onCall = func(k *Term, sec int, args []Value) {
		ex.assert("response: callbacks run without the lock", b.Bool(s.held == 0), nil)
		ap, ok := args[0].(PtrV)
		ex.assert("response: the callback gets this response", b.Bool(ok && ap.O == mp.O && len(ap.Path) == 0), nil)
		if ex.choose(ex.fresh("callbackpanics", BoolS)) {
			ex.throw("panic in the callback", nil)
		}
	}
	ex.callFn(fn, []Value{s.p, mp}, nil, "root")
	ex.ok("no-panic")
	ex.assert("the lock is released", b.Bool(s.held == 0), nil)
	ex.assert("receiving a message does not advance the serial numbers", b.Bool(len(s.commits) == 0 && len(s.sends) == 0), nil)
	// the terminal number
	pos := ex.choose(b.ULt(b.C(64, 0), icc))
	if pos {
		if len(s.iccSet) > 0 {
			ex.assertEq("the session takes the terminal number of its messages", s.iccSet[len(s.iccSet)-1], icc)
		} else {
			ok := b.F
			for i, v := range s.p.O.Val.(StructV).F {
				if s.fieldKind(i) == "icc" {
					ok = b.Eq(v.(*Term), icc)
				}
			}
			for _, v := range s.icc {
				ok = b.Or(ok, b.Eq(v, icc)) // already known
			}
			ex.assert("the session takes the terminal number of its messages", ok, nil)
		}
	} else {
		ex.assert("a message without terminal number keeps the session's", b.Bool(len(s.iccSet) == 0), nil)
	}
	var secs []*pendSection
	for _, x := range s.secs {
		if x.after != nil {
			secs = append(secs, x)
		}
	}
	if name == "other" {
		ex.assert("response: other messages call nothing", b.Bool(len(s.calls) == 0), nil)
		for _, x := range secs {
			ex.assertEq("response: other messages leave requests pending", ex.seqLen(x.after), x.N)
		}
		return
	}
	if len(secs) > 1 {
		ex.failNow("response: looked up in one step", "the pending requests are locked twice")
		return
	}
	if len(secs) == 0 {
		ex.assert("response: looked up among the pending requests", b.Eq(reply, b.C(16, 0)), nil)
		ex.assert("response: a response that matches nothing calls nothing", b.Bool(len(s.calls) == 0), nil)
		return
	}
	sec := secs[0]
	if ex.choose(b.SLt(sec.f, sec.N)) {
		ex.assert("response: its request's callback is called once", b.Bool(len(s.calls) == 1), nil)
		if len(s.calls) == 1 {
			ex.assertEq("response: the callback called is the request's", s.calls[0], sec.f)
		}
	} else {
		ex.assert("response: a response that matches nothing calls nothing", b.Bool(len(s.calls) == 0), nil)
	}
	s.checkRemoved("response", sec)
}
