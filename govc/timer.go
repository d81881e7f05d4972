package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Proof roots for CountdownTimer. The pending elements found when the lock is
// taken are enumerated by a ghost rank in the order in which the heap yields
// them; container/heap is used by contract (roots timer:queue prove what it
// requires of the queue's methods). Between lock sections the state is whatever
// others left, as long as heap and map hold the same elements.

type timerEnv struct {
	ex       *Ex
	w        *World
	tt       *types.Named // CountdownTimer
	et       *types.Named // element
	qt       *types.Named // queue
	p        PtrV         // the timer
	qp       PtrV         // where the queue's slice is
	mo       *Obj         // the map
	si       int          // field: seconds
	ki       int          // element fields: key, index, deadline
	ii       int
	di       int
	live     bool // the timer is shared
	held     int
	secs     []*timerSec
	cur      *timerSec
	nows     []*Term
	sload    []*Term
	sset     []*Term
	vers     map[string]int
	synced   map[*Obj]string
	nfree    int
	onUnlock func(sec *timerSec, post *timerPost)
	emptied  *heapSt
	probe    *Term // the key under discussion at unlock
}

type timerElem struct {
	rank *Term
	o    *Obj
}

// timerSec is one critical section.
type timerSec struct {
	n     int
	N, m  *Term // pending elements; those expired at the time sampled last
	elems []timerElem
	ranks []*Term
}

// timerPost describes the probe key at the end of a section.
type timerPost struct {
	before, after       *Term
	expBefore, expAfter *Term
}

type pushedElem struct {
	o   *Obj
	key *Term
	exp *Term
}

// heapSt is the content of the queue: ranks from popped on, without the removed
// ones, and the pushed elements.
type heapSt struct {
	t       *timerEnv
	sec     *timerSec
	popped  *Term
	removed []*Term
	pushed  []pushedElem
}

func (h *heapSt) Key() string {
	k := fmt.Sprintf("heap%d:%d", h.sec.n, h.popped.ID)
	for _, r := range h.removed {
		k += fmt.Sprintf("-%d", r.ID)
	}
	for _, p := range h.pushed {
		k += "+" + p.o.Name
	}
	return k
}
func (h *heapSt) simple() bool { return len(h.removed) == 0 && len(h.pushed) == 0 }
func (h *heapSt) count() *Term {
	b := h.t.ex.b
	return b.Add(b.Sub(b.Sub(h.sec.N, h.popped), b.I(int64(len(h.removed)))), b.I(int64(len(h.pushed))))
}
func (h *heapSt) idx(id *Term) *Term {
	t := h.t
	k := h.Key()
	if _, ok := t.vers[k]; !ok {
		t.vers[k] = len(t.vers)
	}
	return t.ex.b.App(fmt.Sprintf("hidx%d", t.vers[k]), BV(64), id)
}

// pushedID identifies a pushed element among the ranks.
func (t *timerEnv) pushedID(o *Obj) *Term { return t.ex.b.I(int64(1<<50 + o.N)) }

func (h *heapSt) member(r *Term) *Term {
	b := h.t.ex.b
	c := b.And(b.SLe(h.popped, r), b.SLt(r, h.sec.N))
	for _, x := range h.removed {
		c = b.And(c, b.Ne(r, x))
	}
	return c
}

func (t *timerEnv) keyOf(sec *timerSec, r *Term) *Term {
	return t.ex.b.App(fmt.Sprintf("tkey%d", sec.n), US("Str"), r)
}
func (t *timerEnv) expOf(sec *timerSec, r *Term) *Term {
	return t.ex.b.App(fmt.Sprintf("texp%d", sec.n), BV(64), r)
}
func (t *timerEnv) pend(sec *timerSec, k *Term) *Term {
	return t.ex.b.App(fmt.Sprintf("tpend%d", sec.n), BoolS, k)
}
func (t *timerEnv) rank(sec *timerSec, k *Term) *Term {
	ex, b := t.ex, t.ex.b
	r := b.App(fmt.Sprintf("trank%d", sec.n), BV(64), k)
	in := b.And(b.SLe(b.I(0), r), b.SLt(r, sec.N))
	ex.assume(b.Implies(t.pend(sec, k), b.And(in, b.Eq(t.keyOf(sec, r), k))))
	t.rankFacts(sec, r)
	return r
}
func (t *timerEnv) rankFacts(sec *timerSec, r *Term) {
	ex, b := t.ex, t.ex.b
	in := b.And(b.SLe(b.I(0), r), b.SLt(r, sec.N))
	k := t.keyOf(sec, r)
	ex.assume(b.Implies(in, b.And(t.pend(sec, k), b.Eq(b.App(fmt.Sprintf("trank%d", sec.n), BV(64), k), r))))
	if n := len(t.nows); n > 0 {
		ex.assume(b.Implies(in, b.Eq(b.SLe(t.expOf(sec, r), t.nows[n-1]), b.SLt(r, sec.m))))
	}
	for _, q := range sec.ranks {
		if q == r {
			return
		}
	}
	for _, q := range sec.ranks {
		qin := b.And(b.SLe(b.I(0), q), b.SLt(q, sec.N))
		ex.assume(b.Implies(b.And(in, qin, b.SLe(r, q)), b.SLe(t.expOf(sec, r), t.expOf(sec, q))))
		ex.assume(b.Implies(b.And(in, qin, b.SLe(q, r)), b.SLe(t.expOf(sec, q), t.expOf(sec, r))))
	}
	sec.ranks = append(sec.ranks, r)
}

// element gives the object of a rank.
func (t *timerEnv) element(h *heapSt, r *Term) *Obj {
	ex := t.ex
	for _, e := range h.sec.elems {
		if e.rank == r || ex.choose(ex.b.Eq(e.rank, r)) {
			t.sync(h, e.o, e.rank)
			return e.o
		}
	}
	t.rankFacts(h.sec, r)
	sv := StructV{F: append([]Value{}, ex.zero(t.et).(StructV).F...)}
	sv.F[t.ki] = StrV{ex.strSeq(t.keyOf(h.sec, r))}
	sv.F[t.di] = t.expOf(h.sec, r)
	o := ex.newObj("element", sv, t.et)
	h.sec.elems = append(h.sec.elems, timerElem{r, o})
	t.sync(h, o, r)
	return o
}

// sync: the queue's methods keep the positions up to date.
func (t *timerEnv) sync(h *heapSt, o *Obj, id *Term) {
	if t.synced[o] == h.Key() {
		return
	}
	b := t.ex.b
	t.synced[o] = h.Key()
	i := h.idx(id)
	t.ex.assume(b.Implies(h.memberID(o, id), b.And(b.SLe(b.I(0), i), b.SLt(i, h.count()))))
	if h.simple() {
		t.ex.assume(b.Implies(h.member(id), b.Eq(b.Eq(i, b.I(0)), b.Eq(id, h.popped))))
	}
	w, _ := t.ex.intWidth(fieldType(t.et, t.ii))
	if w != 64 {
		t.ex.unsupported("the position is not an int")
	}
	t.setField(o, t.ii, b.Ite(h.memberID(o, id), i, t.goneIdx(id)))
}

// goneIdx is whatever position an element is left with that has left the queue.
func (t *timerEnv) goneIdx(id *Term) *Term { return t.ex.b.App("tgone", BV(64), id) }
func (h *heapSt) memberID(o *Obj, id *Term) *Term {
	for _, p := range h.pushed {
		if p.o == o {
			return h.t.ex.b.T
		}
	}
	return h.member(id)
}
func (t *timerEnv) setField(o *Obj, i int, v Value) {
	fs := append([]Value{}, o.Val.(StructV).F...)
	fs[i] = v
	o.Val = StructV{F: fs}
}

type heapMember struct {
	o  *Obj
	id *Term
	p  int // index among the pushed, or -1
}

// known members of the queue
func (h *heapSt) members() []heapMember {
	var r []heapMember
	for i, p := range h.pushed {
		r = append(r, heapMember{p.o, h.t.pushedID(p.o), i})
	}
	for _, e := range h.sec.elems {
		if h.t.ex.choose(h.member(e.rank)) {
			pushedToo := false
			for _, p := range h.pushed {
				if p.o == e.o {
					pushedToo = true
				}
			}
			if !pushedToo {
				r = append(r, heapMember{e.o, e.rank, -1})
			}
		}
	}
	return r
}

// At gives the element at a position of the queue.
func (h *heapSt) At(ex *Ex, i *Term) Value {
	m := h.at(i)
	return ex.ptrTo(m.o)
}
func (h *heapSt) at(i *Term) heapMember {
	t := h.t
	ex, b := t.ex, t.ex.b
	if h.simple() && ex.choose(b.Eq(i, b.I(0))) {
		ex.assume(b.Eq(h.idx(h.popped), b.I(0)))
		return heapMember{t.element(h, h.popped), h.popped, -1}
	}
	ms := h.members()
	for _, m := range ms {
		t.sync(h, m.o, m.id)
		if ex.choose(b.Eq(h.idx(m.id), i)) {
			for _, x := range ms {
				if x.o != m.o {
					ex.assume(b.Ne(h.idx(x.id), i))
				}
			}
			h.minimal(m, i, ms)
			return m
		}
	}
	r := ex.fresh("rank", BV(64))
	ex.assume(h.member(r))
	for _, e := range h.sec.elems {
		ex.assume(b.Ne(e.rank, r))
	}
	m := heapMember{t.element(h, r), r, -1}
	ex.assume(b.Eq(h.idx(r), i))
	h.minimal(m, i, ms)
	return m
}
func (h *heapSt) exp(m heapMember) *Term {
	if m.p >= 0 {
		return h.pushed[m.p].exp
	}
	return h.t.expOf(h.sec, m.id)
}

// minimal: position 0 holds an earliest deadline.
func (h *heapSt) minimal(m heapMember, i *Term, ms []heapMember) {
	ex, b := h.t.ex, h.t.ex.b
	if !ex.choose(b.Eq(i, b.I(0))) {
		return
	}
	for _, x := range ms {
		ex.assume(b.SLe(h.exp(m), h.exp(x)))
	}
}

func (t *timerEnv) heap() *heapSt {
	ex := t.ex
	sl, ok := ex.getPath(t.qp.O.Val, t.qp.Path).(SliceV)
	if ok && sl.Arr.O != nil && sl.Off.isConst() && sl.Off.Val == 0 {
		if s, ok := sl.Arr.O.Val.(*Seq); ok && len(s.Segs) == 1 {
			if h, ok := s.Segs[0].B.(*heapSt); ok && s.Segs[0].From.isConst() && s.Segs[0].From.Val == 0 && ex.valid(ex.b.Eq(sl.Len, h.count())) {
				return h
			}
		}
		if len(ex.content(sl).Segs) == 0 && t.cur != nil {
			// emptied: only an empty queue may look like that
			if h := t.emptied; h != nil && ex.valid(ex.b.Eq(h.count(), ex.b.I(0))) {
				return h
			}
		}
	}
	ex.unsupported("the queue is changed other than by heap operations")
	return nil
}

func (t *timerEnv) install(h *heapSt) {
	ex := t.ex
	t.emptied = h
	seq := &Seq{Segs: []Seg{{B: h, From: ex.b.I(0), N: h.count()}}}
	sl := ex.sliceOf(seq, "queue", types.NewPointer(t.et))
	t.qp.O.Val = ex.setPath(t.qp.O.Val, t.qp.Path, sl)
	for _, p := range h.pushed {
		t.sync(h, p.o, t.pushedID(p.o))
	}
	for _, e := range h.sec.elems {
		t.sync(h, e.o, e.rank)
	}
}

// clean: deadlines and keys of queued elements are those they were queued with.
func (t *timerEnv) clean(h *heapSt, but *Obj) {
	ex, b := t.ex, t.ex.b
	for _, m := range h.members() {
		if m.o == but {
			continue
		}
		sv := m.o.Val.(StructV)
		key := t.keyOf(h.sec, m.id)
		if m.p >= 0 {
			key = h.pushed[m.p].key
		}
		ex.assert("a queued element keeps its key", ex.goEq(sv.F[t.ki], StrV{ex.strSeq(key)}), nil)
		ex.assert("the queue's order is restored when a deadline changes", b.Eq(sv.F[t.di].(*Term), h.exp(m)), nil)
		t.sync(h, m.o, m.id)
		ex.assert("a queued element knows its position", b.Eq(sv.F[t.ii].(*Term), h.idx(m.id)), nil)
	}
}

func (h *heapSt) without(m heapMember) *heapSt {
	ex, b := h.t.ex, h.t.ex.b
	n := &heapSt{t: h.t, sec: h.sec, popped: h.popped, removed: append([]*Term{}, h.removed...), pushed: append([]pushedElem{}, h.pushed...)}
	switch {
	case m.p >= 0:
		n.pushed = append(append([]pushedElem{}, h.pushed[:m.p]...), h.pushed[m.p+1:]...)
	case h.simple() && ex.valid(b.Eq(m.id, h.popped)):
		n.popped = b.Add(h.popped, b.I(1))
	default:
		n.removed = append(n.removed, m.id)
	}
	return n
}
func (h *heapSt) with(o *Obj) *heapSt {
	t := h.t
	ex := t.ex
	sv := o.Val.(StructV)
	k := ex.wholeTerm(sv.F[t.ki].(StrV).S)
	if k == nil {
		ex.unsupported("key of a queued element")
	}
	n := *h
	n.pushed = append(append([]pushedElem{}, h.pushed...), pushedElem{o, k, sv.F[t.di].(*Term)})
	return &n
}
func (t *timerEnv) elemArg(v Value) *Obj {
	if iv, ok := v.(IfaceV); ok {
		if p, ok := iv.V.(PtrV); ok && p.O != nil && len(p.Path) == 0 {
			return p.O
		}
	}
	t.ex.unsupported("what is pushed is not an element")
	return nil
}
func (t *timerEnv) isQueue(v Value) {
	iv, ok := v.(IfaceV)
	if ok {
		if p, ok := iv.V.(PtrV); ok && p.O == t.qp.O && samePath(p.Path, t.qp.Path) {
			return
		}
	}
	t.ex.unsupported("heap operation on another queue")
}

func newTimerEnv(ex *Ex, w *World, secs *Term, cb FuncV) *timerEnv {
	b := ex.b
	ex.wholeStr = true
	t := &timerEnv{ex: ex, w: w, tt: w.namedIn("go808", "CountdownTimer"), vers: map[string]int{}, synced: map[*Obj]string{}}
	fn := w.Pkgs["go808"].Func("NewCountdownTimer")
	if fn == nil || t.tt == nil {
		ex.failNow("exists", "NewCountdownTimer not found")
		return nil
	}
	t.hooks()
	r := ex.callFn(fn, []Value{secs, cb}, nil, "new")
	p, ok := r.(PtrV)
	if !ok || p.O == nil {
		ex.failNow("exists", "NewCountdownTimer returns no timer")
		return nil
	}
	t.p = p
	sv := p.O.Val.(StructV)
	t.si = -1
	found := 0
	for i, f := range sv.F {
		ft := fieldType(t.tt, i)
		switch u := ft.Underlying().(type) {
		case *types.Map:
			ep, ok := u.Elem().(*types.Pointer)
			if !ok {
				continue
			}
			if n, ok := ep.Elem().(*types.Named); ok {
				t.et = n
				if mr, ok := f.(MapRef); ok && mr.O != nil {
					t.mo = mr.O
					found |= 1
				}
			}
		case *types.Pointer:
			if n, ok := u.Elem().(*types.Named); ok {
				if _, ok := n.Underlying().(*types.Slice); ok {
					t.qt = n
					t.qp, _ = f.(PtrV)
					found |= 2
				}
			}
		case *types.Slice:
			if n, ok := ft.(*types.Named); ok {
				t.qt = n
				t.qp = PtrV{O: p.O, Path: []PE{{F: i}}, Nil: b.F}
				found |= 2
			}
		case *types.Basic:
			if u.Kind() == types.Int64 {
				t.si = i
				found |= 4
			}
		case *types.Struct:
			if typeName(ft) == "sync/atomic.Int64" {
				t.si = i
				found |= 4
			}
		}
	}
	if found != 7 || t.qp.O == nil {
		ex.unsupported("the timer is not a heap, a map and a number of seconds")
	}
	t.ki, t.ii, t.di = -1, -1, -1
	st, _ := t.et.Underlying().(*types.Struct)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		switch u, _ := st.Field(i).Type().Underlying().(*types.Basic); {
		case u == nil:
		case u.Kind() == types.String:
			t.ki = i
		case u.Kind() == types.Int:
			t.ii = i
		case u.Kind() == types.Int64:
			t.di = i
		}
	}
	if t.ki < 0 || t.ii < 0 || t.di < 0 {
		ex.unsupported("a pending element is not key, position and deadline")
	}
	ex.mapEq = func(a, c MapV) bool {
		k := b.Var("anykey", US("Str"))
		h1, i1 := t.mapAt(a, k)
		h2, i2 := t.mapAt(c, k)
		return ex.valid(b.And(b.Eq(h1, h2), b.Implies(h1, b.Eq(i1, i2))))
	}
	return t
}

// mapAt: is the key in the map, and which element is it?
func (t *timerEnv) mapAt(m MapV, k *Term) (*Term, *Term) {
	ex, b := t.ex, t.ex.b
	kv := StrV{ex.strSeq(k)}
	has, id := b.F, b.I(-1)
	if m.Base != nil {
		has = m.Base.Has(ex, kv)
		id = t.rank(t.cur, k)
	}
	for i := len(m.Ents) - 1; i >= 0; i-- {
		e := m.Ents[i]
		eq := ex.goEq(e.K, kv)
		if e.V == nil {
			has = b.And(b.Not(eq), has)
			continue
		}
		has = b.Or(eq, has)
		v := b.I(-2)
		if p, ok := e.V.(PtrV); ok && p.O != nil && len(p.Path) == 0 {
			v = t.pushedID(p.O)
			for _, x := range t.cur.elems {
				if x.o == p.O {
					v = x.rank
				}
			}
		}
		id = b.Ite(eq, v, id)
	}
	return has, id
}
func (t *timerEnv) heapAt(h *heapSt, k *Term) (has, id, exp *Term) {
	b := t.ex.b
	r := t.rank(h.sec, k)
	has = b.And(t.pend(h.sec, k), h.member(r))
	id, exp = r, t.expOf(h.sec, r)
	for _, p := range h.pushed {
		eq := b.Eq(p.key, k)
		i := t.pushedID(p.o)
		for _, x := range h.sec.elems {
			if x.o == p.o {
				i = x.rank
			}
		}
		has, id, exp = b.Or(eq, has), b.Ite(eq, i, id), b.Ite(eq, p.exp, exp)
	}
	return
}

func (t *timerEnv) base(h *heapSt) *SymMap {
	ex, b := t.ex, t.ex.b
	kt := func(v Value) *Term {
		k := ex.wholeTerm(v.(StrV).S)
		if k == nil {
			ex.unsupported("lookup by a computed key")
		}
		return k
	}
	return &SymMap{Name: h.Key(),
		Has: func(ex *Ex, v Value) *Term {
			k := kt(v)
			return b.And(t.pend(h.sec, k), b.SLe(h.popped, t.rank(h.sec, k)))
		},
		Val: func(ex *Ex, v Value) Value {
			return ex.ptrTo(t.element(t.heap(), t.rank(h.sec, kt(v))))
		}}
}

func (t *timerEnv) enter() {
	ex, b := t.ex, t.ex.b
	sec := &timerSec{n: len(t.secs)}
	t.secs = append(t.secs, sec)
	t.cur = sec
	sec.N = b.Var(fmt.Sprintf("pending%d", sec.n), BV(64))
	sec.m = b.Var(fmt.Sprintf("expired%d", sec.n), BV(64))
	ex.assume(b.And(b.SLe(b.I(0), sec.N), b.SLt(sec.N, b.I(1<<40)), b.SLe(b.I(0), sec.m), b.SLe(sec.m, sec.N)))
	h := &heapSt{t: t, sec: sec, popped: b.I(0)}
	t.install(h)
	t.mo.Val = MapV{Base: t.base(h)}
	// one expired element per iteration
	l := &SpecList{Key: fmt.Sprintf("expired%d", sec.n), N: sec.m}
	l.Elem = func(ex *Ex, j *Term) Value { return StrV{ex.strSeq(t.keyOf(sec, j))} }
	l.Unfold = func(ex *Ex, k *Term) int {
		t.rankFacts(sec, k)
		if ex.choose(b.Eq(k, sec.m)) {
			return 0
		}
		ex.assume(b.SLt(k, sec.m))
		return 1
	}
	l.Forms = []func(ex *Ex, init Value, k *Term) (Value, bool){func(ex *Ex, init Value, k *Term) (Value, bool) {
		switch v := init.(type) {
		case SliceV:
			if v.Arr.O == nil {
				return nil, false
			}
			s, ok := v.Arr.O.Val.(*Seq)
			if !ok || len(s.Segs) != 1 {
				return nil, false
			}
			h, ok := s.Segs[0].B.(*heapSt)
			if !ok || !h.simple() || h.sec != sec {
				return nil, false
			}
			n := &heapSt{t: t, sec: sec, popped: b.Add(h.popped, k)}
			seq := &Seq{Segs: []Seg{{B: n, From: b.I(0), N: n.count()}}}
			return ex.sliceOf(seq, "queue", types.NewPointer(t.et)), true
		case MapV:
			if len(v.Ents) > 0 || v.Base == nil || t.cur != sec {
				return nil, false
			}
			n := &heapSt{t: t, sec: sec, popped: k}
			return MapV{Base: t.base(n)}, true
		case *Term:
			// the position of an element seen before the loop
			for _, e := range sec.elems {
				n0 := &heapSt{t: t, sec: sec, popped: b.I(0)}
				if b.Ite(n0.member(e.rank), n0.idx(e.rank), t.goneIdx(e.rank)) != v {
					continue
				}
				n := &heapSt{t: t, sec: sec, popped: k}
				i := n.idx(e.rank)
				ex.assume(b.Implies(n.member(e.rank), b.And(b.SLe(b.I(0), i), b.SLt(i, n.count()), b.Eq(b.Eq(i, b.I(0)), b.Eq(e.rank, k)))))
				return b.Ite(n.member(e.rank), i, t.goneIdx(e.rank)), true
			}
			return nil, false
		case PtrV:
			// the element at the front of the queue, if any
			if t.cur != sec {
				return nil, false
			}
			if v.O != nil {
				known := false
				for _, e := range sec.elems {
					known = known || e.o == v.O
				}
				if !known {
					return nil, false
				}
			}
			if !ex.choose(b.SLt(k, sec.N)) {
				return PtrV{Nil: b.T}, true
			}
			for _, e := range sec.elems {
				if e.rank == k || ex.choose(b.Eq(e.rank, k)) {
					return ex.ptrTo(e.o), true
				}
			}
			n := &heapSt{t: t, sec: sec, popped: k}
			return ex.ptrTo(t.element(n, k)), true
		}
		return nil, false
	}}
	// or the expired elements themselves
	eb := &expiredBase{t, sec}
	l.Forms = append(l.Forms, func(ex *Ex, init Value, k *Term) (Value, bool) {
		v, ok := init.(SliceV)
		if !ok || !ex.valid(b.Eq(v.Len, b.I(0))) {
			return nil, false
		}
		for _, e := range sec.elems {
			if !eb.intact(e) {
				return nil, false
			}
		}
		r := ex.sliceOf(ex.win(eb, b.I(0), k), "expired", types.NewPointer(t.et))
		r.Nil = b.And(v.Nil, b.Eq(k, b.I(0)))
		return r, true
	})
	ex.lists = append(ex.lists, l)
	if _, ok := t.p.O.Val.(StructV).F[t.si].(*Term); ok {
		v := ex.fresh("seconds", BV(64))
		t.sload = append(t.sload, v)
		t.setField(t.p.O, t.si, v)
	}
}

// expiredBase lists the elements found expired, by rank.
type expiredBase struct {
	t   *timerEnv
	sec *timerSec
}

func (e *expiredBase) Key() string { return fmt.Sprintf("expelems%d", e.sec.n) }
func (e *expiredBase) At(ex *Ex, i *Term) Value {
	return ex.ptrTo(e.t.element(&heapSt{t: e.t, sec: e.sec, popped: e.sec.m}, i))
}

// intact: the element still has the key and deadline it was found with.
func (e *expiredBase) intact(x timerElem) bool {
	t, b := e.t, e.t.ex.b
	sv, ok := x.o.Val.(StructV)
	if !ok {
		return false
	}
	k, ok := sv.F[t.ki].(StrV)
	d, ok2 := sv.F[t.di].(*Term)
	return ok && ok2 && t.ex.valid(b.Eq(d, t.expOf(e.sec, x.rank))) && t.ex.valid(t.ex.goEq(k, StrV{t.ex.strSeq(t.keyOf(e.sec, x.rank))}))
}

func (t *timerEnv) leave() {
	ex, b := t.ex, t.ex.b
	sec := t.cur
	h := t.heap()
	t.clean(h, nil)
	mv, ok := t.mo.Val.(MapV)
	if !ok {
		ex.unsupported("map content")
	}
	k := t.probe
	if k == nil {
		k = b.Var("anykey", US("Str"))
	}
	for _, k := range []*Term{b.Var("anykey", US("Str")), k} {
		hh, hid, _ := t.heapAt(h, k)
		mh, mid := t.mapAt(mv, k)
		// a key is queued at most once
		n := 0
		for i, p := range h.pushed {
			dup := b.And(t.pend(sec, p.key), h.member(t.rank(sec, p.key)))
			for _, q := range h.pushed[:i] {
				dup = b.Or(dup, b.Eq(q.key, p.key))
			}
			ex.assert("a key is pending at most once", b.Not(dup), nil)
			n++
		}
		ex.assert("the queue and the map hold the same keys", b.Eq(hh, mh), nil)
		ex.assert("the map refers to the queued element", b.Implies(hh, b.Eq(hid, mid)), nil)
	}
	if t.onUnlock != nil {
		any := b.Var("anykey", US("Str"))
		r := t.rank(sec, any)
		ha, _, ea := t.heapAt(h, any)
		t.onUnlock(sec, &timerPost{t.pend(sec, any), ha, t.expOf(sec, r), ea})
	}
	t.cur = nil
}

func (t *timerEnv) hooks() {
	ex, b := t.ex, t.ex.b
	ex.hooks["time.Now"] = func(ex *Ex, a []Value) (Value, bool) {
		v := ex.fresh("now", BV(64))
		ex.assume(b.And(b.SLe(b.I(0), v), b.SLt(v, b.I(1<<40))))
		t.nows = append(t.nows, v)
		if t.cur != nil {
			for _, r := range t.cur.ranks {
				t.rankFacts(t.cur, r)
			}
		}
		return TimeV{Sec: v}, true
	}
	tick := func(ex *Ex, a []Value) *Term { return asTerm(ex, a[0]) }
	period := func(d *Term) {
		ex.assert("checks are made every second", b.And(b.SLt(b.I(0), d), b.SLe(d, b.I(1e9))), nil)
	}
	ex.hooks["time.NewTicker"] = func(ex *Ex, a []Value) (Value, bool) {
		period(tick(ex, a))
		return ex.ptrNew("ticker", StructV{F: []Value{OpqV{Kind: "chan", Data: "tick"}, b.T, b.T, b.T}}), true
	}
	ex.hooks["time.Tick"] = func(ex *Ex, a []Value) (Value, bool) {
		period(tick(ex, a))
		return OpqV{Kind: "chan", Data: "tick"}, true
	}
	ex.hooks["time.After"] = ex.hooks["time.Tick"]
	ex.hooks["time.Sleep"] = func(ex *Ex, a []Value) (Value, bool) {
		period(tick(ex, a))
		return nil, true
	}
	ex.hooks["chanrecv"] = func(ex *Ex, a []Value) (Value, bool) {
		o, ok := a[0].(OpqV)
		if !ok || o.Data != "tick" {
			return nil, false
		}
		v := TimeV{Sec: ex.fresh("tick", BV(64))}
		if a[1].(*Term).isTrue() {
			return TupleV{v, b.T}, true
		}
		return v, true
	}
	isSecs := func(p PtrV) bool {
		return t.live && p.O == t.p.O && len(p.Path) > 0 && p.Path[0].F == t.si
	}
	ex.hooks["atomic.Load"] = func(ex *Ex, a []Value) (Value, bool) {
		if !isSecs(asPtr(ex, a[0])) {
			return nil, false
		}
		v := ex.fresh("seconds", BV(64))
		t.sload = append(t.sload, v)
		return v, true
	}
	ex.hooks["atomic.Store"] = func(ex *Ex, a []Value) (Value, bool) {
		if !isSecs(asPtr(ex, a[0])) {
			return nil, false
		}
		t.sset = append(t.sset, asTerm(ex, a[1]))
		return nil, true
	}
	ex.hooks["lock"] = func(ex *Ex, a []Value) (Value, bool) {
		if mp := asPtr(ex, a[0]); !t.live || mp.O != t.p.O {
			return nil, true
		}
		switch a[1].(OpqV).Kind {
		case "Lock":
			ex.assert("the lock is not taken twice", b.Bool(t.held == 0), nil)
			t.held++
			t.enter()
		case "Unlock":
			ex.assert("only a held lock is released", b.Bool(t.held == 1), nil)
			if t.held == 1 {
				t.leave()
			}
			t.held--
		default:
			ex.unsupported("a read lock")
		}
		return nil, true
	}
	ex.monitor = &Monitor{acc: func(ex *Ex, p PtrV, write bool) {
		if !t.live || t.held > 0 {
			return
		}
		bad := p.O == t.mo || p.O == t.qp.O && len(p.Path) >= len(t.qp.Path) && samePath(p.Path[:len(t.qp.Path)], t.qp.Path)
		bad = bad || p.O == t.p.O && len(p.Path) > 0 && p.Path[0].F == t.si
		for _, s := range t.secs {
			for _, e := range s.elems {
				bad = bad || write && e.o == p.O
			}
		}
		if bad {
			ex.failNow("shared state is only accessed atomically or under the lock", ex.where())
		}
	}}
	op := func(name string, f func(ex *Ex, h *heapSt, a []Value) Value) {
		ex.hooks["container/heap."+name] = func(ex *Ex, a []Value) (Value, bool) {
			if !t.live {
				if name == "Init" {
					return nil, true
				}
				ex.unsupported("heap operation outside the timer")
			}
			ex.e.Used["container/heap (heap operations keep the elements and put an earliest one first)"] = true
			if t.held == 0 {
				ex.failNow("shared state is only accessed atomically or under the lock", "heap operation at "+ex.where())
				ex.cut()
			}
			t.isQueue(a[0])
			return f(ex, t.heap(), a[1:]), true
		}
	}
	inRange := func(h *heapSt, i *Term) {
		ex.assert("heap operations name a position in the queue", b.And(b.SLe(b.I(0), i), b.SLt(i, h.count())), nil)
		ex.assume(b.And(b.SLe(b.I(0), i), b.SLt(i, h.count())))
	}
	gone := func(h *heapSt, m heapMember) Value {
		t.clean(h, m.o)
		n := h.without(m)
		t.synced[m.o] = n.Key()
		t.install(n)
		t.synced[m.o] = n.Key()
		t.setField(m.o, t.ii, t.goneIdx(m.id))
		return IfaceV{Nil: b.F, T: types.NewPointer(t.et), V: ex.ptrTo(m.o)}
	}
	op("Init", func(ex *Ex, h *heapSt, a []Value) Value { t.clean(h, nil); return nil })
	op("Push", func(ex *Ex, h *heapSt, a []Value) Value {
		o := t.elemArg(a[0])
		for _, m := range h.members() {
			if m.o == o {
				ex.failNow("a key is pending at most once", "an element is queued twice")
				ex.cut()
			}
		}
		t.clean(h, nil)
		t.install(h.with(o))
		return nil
	})
	op("Remove", func(ex *Ex, h *heapSt, a []Value) Value {
		i := asTerm(ex, a[0])
		inRange(h, i)
		return gone(h, h.at(i))
	})
	op("Pop", func(ex *Ex, h *heapSt, a []Value) Value {
		inRange(h, b.I(0))
		return gone(h, h.at(b.I(0)))
	})
	op("Fix", func(ex *Ex, h *heapSt, a []Value) Value {
		i := asTerm(ex, a[0])
		inRange(h, i)
		m := h.at(i)
		t.clean(h, m.o)
		t.install(h.without(m).with(m.o))
		return nil
	})
}

func anyOf(b *TermBank, v *Term, ts []*Term) *Term {
	r := b.F
	for _, t := range ts {
		r = b.Or(r, b.Eq(v, t))
	}
	return r
}

func timerJobs(w *World) []job {
	if w.Pkgs["go808"] == nil {
		return nil
	}
	tt := w.namedIn("go808", "CountdownTimer")
	if tt == nil {
		return nil
	}
	cbOf := func(b *TermBank) FuncV {
		return FuncV{Nil: b.F, Id: b.C(32, 0x7007), Mod: func(ex *Ex, a []Value) Value {
			ex.failNow("only a check calls the callback", "called elsewhere")
			return nil
		}}
	}
	var js []job
	js = append(js, job{"timer:New", func(w *World, e *Engine) {
		e.Explore(func(ex *Ex) {
			b := ex.b
			secs := b.Var("seconds", BV(64))
			t := newTimerEnv(ex, w, secs, cbOf(b))
			if t == nil {
				return
			}
			ex.ok("no-panic")
			sv := t.p.O.Val.(StructV)
			v, _ := sv.F[t.si].(*Term)
			ex.assert("a new timer has the given number of seconds", b.Bool(v != nil && ex.valid(b.Eq(v, secs))), nil)
			sl, _ := ex.getPath(t.qp.O.Val, t.qp.Path).(SliceV)
			ex.assert("a new timer has nothing pending", b.Bool(sl.Len != nil && ex.valid(b.Eq(sl.Len, b.I(0)))), nil)
			mv, _ := t.mo.Val.(MapV)
			ex.assert("a new timer has nothing pending", b.Bool(len(mv.Ents) == 0 && mv.Base == nil), nil)
			ex.assert("one goroutine makes the checks", b.Bool(len(ex.spawned) == 1), nil)
			okcb := false
			for _, f := range sv.F {
				if fv, ok := f.(FuncV); ok && fv.Id != nil && fv.Id.isConst() && fv.Id.Val == 0x7007 {
					okcb = true
				}
			}
			ex.assert("a new timer has the given callback", b.Bool(okcb), nil)
		})
	}})
	opJob := func(name string, args func(ex *Ex, key *Term) []Value, spec func(ex *Ex, t *timerEnv, key *Term, last bool, p *timerPost)) {
		js = append(js, job{"timer:" + name, func(w *World, e *Engine) {
			fn := w.method(tt, name)
			if !w.need(e, fn, "CountdownTimer."+name) {
				return
			}
			e.Explore(func(ex *Ex) {
				b := ex.b
				t := newTimerEnv(ex, w, b.Var("seconds", BV(64)), cbOf(b))
				if t == nil {
					return
				}
				t.live = true
				key := b.Var("key", US("Str"))
				t.probe = key
				var posts []*timerPost
				t.onUnlock = func(sec *timerSec, p *timerPost) { posts = append(posts, p) }
				ex.callFn(fn, append([]Value{t.p}, args(ex, key)...), nil, "root")
				ex.ok("no-panic")
				ex.assert("the lock is released", b.Bool(t.held == 0), nil)
				if len(posts) == 0 {
					spec(ex, t, key, true, nil)
				}
				for i, p := range posts {
					spec(ex, t, key, i == len(posts)-1, p)
				}
			})
		}})
	}
	keyArg := func(ex *Ex, key *Term) []Value { return []Value{StrV{ex.strSeq(key)}} }
	others := func(ex *Ex, key *Term, p *timerPost) {
		b := ex.b
		other := b.Ne(b.Var("anykey", US("Str")), key)
		ex.assert("other keys stay pending, with their deadlines", b.Implies(other, b.And(b.Eq(p.before, p.after), b.Implies(p.before, b.Eq(p.expBefore, p.expAfter)))), nil)
	}
	opJob("Update", keyArg, func(ex *Ex, t *timerEnv, key *Term, last bool, p *timerPost) {
		b := ex.b
		if p == nil {
			ex.failNow("an updated key is pending", "the timer is not changed")
			return
		}
		others(ex, key, p)
		if !last {
			return
		}
		same := b.Eq(b.Var("anykey", US("Str")), key)
		ex.assert("an updated key is pending", b.Implies(same, p.after), nil)
		var want []*Term
		for _, n := range t.nows {
			for _, s := range t.sload {
				want = append(want, b.Add(n, s))
			}
		}
		ex.assert("its deadline is the configured number of seconds from now", b.Implies(same, anyOf(b, p.expAfter, want)), nil)
	})
	opJob("Remove", keyArg, func(ex *Ex, t *timerEnv, key *Term, last bool, p *timerPost) {
		b := ex.b
		if p == nil {
			ex.failNow("a removed key is not pending", "the timer is not changed")
			return
		}
		others(ex, key, p)
		if last {
			ex.assert("a removed key is not pending", b.Implies(b.Eq(b.Var("anykey", US("Str")), key), b.Not(p.after)), nil)
		}
	})
	js = append(js, job{"timer:SetExpiration", func(w *World, e *Engine) {
		fn := w.method(tt, "SetExpiration")
		if !w.need(e, fn, "CountdownTimer.SetExpiration") {
			return
		}
		e.Explore(func(ex *Ex) {
			b := ex.b
			t := newTimerEnv(ex, w, b.Var("seconds", BV(64)), cbOf(b))
			if t == nil {
				return
			}
			t.live = true
			n := b.Var("n", BV(64))
			ex.addInput("n", n)
			var posts []*timerPost
			t.onUnlock = func(sec *timerSec, p *timerPost) { posts = append(posts, p) }
			before := len(t.sload)
			ex.callFn(fn, []Value{t.p, n}, nil, "root")
			ex.ok("no-panic")
			for _, p := range posts {
				ex.assert("setting the number of seconds leaves pending keys alone", b.And(b.Eq(p.before, p.after), b.Implies(p.before, b.Eq(p.expBefore, p.expAfter))), nil)
			}
			var got *Term
			if len(t.sset) > 0 {
				got = t.sset[len(t.sset)-1]
			} else if v, ok := t.p.O.Val.(StructV).F[t.si].(*Term); ok && len(t.secs) > 0 && (len(t.sload) == before || v != t.sload[len(t.sload)-1]) {
				got = v // stored under the lock
			}
			if ex.choose(b.SLt(b.I(0), n)) {
				ex.assert("a positive number of seconds is taken", b.Bool(got != nil && ex.valid(b.Eq(got, n))), nil)
			} else {
				ex.assert("a number that is not positive is ignored", b.Bool(got == nil), nil)
			}
		})
	}})
	js = append(js, job{"timer:check", func(w *World, e *Engine) {
		e.Explore(func(ex *Ex) { timerCheckRoot(ex, w) })
	}})
	js = append(js, queueJobs(w, tt)...)
	return js
}

func timerCheckRoot(ex *Ex, w *World) {
	b := ex.b
	fired := ex.newObj("fired", ex.sliceOf(emptySeq, "fired0", types.Typ[types.String]), types.NewSlice(types.Typ[types.String]))
	var t *timerEnv
	cb := FuncV{Nil: b.T}
	withCb := ex.chooseN(2) == 0
	if withCb {
		cb = FuncV{Nil: b.F, Id: b.C(32, 0x7007), Mod: func(ex *Ex, a []Value) Value {
			ex.assert("the callback runs without the lock", b.Bool(t != nil && t.held == 0), nil)
			s := ex.cat(ex.content(asSlice(ex, ex.load(ex.ptrTo(fired)))), elems(a[0]))
			fired.Val = ex.sliceOf(s, "fired", types.Typ[types.String])
			return nil
		}}
	}
	t = newTimerEnv(ex, w, b.Var("seconds", BV(64)), cb)
	if t == nil {
		return
	}
	if len(ex.spawned) != 1 {
		ex.failNow("one goroutine makes the checks", fmt.Sprint(len(ex.spawned)))
		return
	}
	t.live = true
	var posts []*timerPost
	var secs []*timerSec
	ticks := 0
	base := ex.hooks["chanrecv"]
	ex.hooks["chanrecv"] = func(ex *Ex, a []Value) (Value, bool) {
		ticks++
		t.nows = nil
		return base(ex, a)
	}
	sleep := ex.hooks["time.Sleep"]
	ex.hooks["time.Sleep"] = func(ex *Ex, a []Value) (Value, bool) {
		ticks++
		t.nows = nil
		return sleep(ex, a)
	}
	t.onUnlock = func(sec *timerSec, p *timerPost) {
		posts = append(posts, p)
		secs = append(secs, sec)
	}
	inIter := false
	ex.service = &Service{
		match: func(fr *Frame, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
			return !inIter && reaches(body, func(in ssa.Instruction) bool {
				switch in := in.(type) {
				case *ssa.Select:
					return true
				case *ssa.UnOp:
					return in.Op == token.ARROW
				case *ssa.Call:
					f := in.Call.StaticCallee()
					return f != nil && f.String() == "time.Sleep"
				}
				return false
			})
		},
		shared: func(o *Obj) bool { return o == t.p.O || o == t.qp.O || o == t.mo || o == fired },
		begin:  func() { inIter = true },
		cut: func() {
			ex.ok("no-panic")
			ex.assert("each round waits for its tick", b.Bool(ticks == 1), nil)
			ex.assert("the lock is released", b.Bool(t.held == 0), nil)
			if len(posts) != 1 {
				ex.failNow("a check looks at the pending keys once", fmt.Sprintf("%d critical sections", len(posts)))
				return
			}
			if len(t.nows) == 0 {
				ex.failNow("deadlines are compared with the current time", "the time is not taken in the round")
				return
			}
			p := posts[0]
			due := b.And(p.before, b.SLe(p.expBefore, t.nows[len(t.nows)-1]))
			ex.assert("a check forgets the keys whose deadline has passed", b.Implies(due, b.Not(p.after)), nil)
			ex.assert("a check keeps the keys whose deadline has not passed", b.Implies(b.And(p.before, b.Not(due)), b.And(p.after, b.Eq(p.expBefore, p.expAfter))), nil)
			ex.assert("a check adds nothing", b.Implies(b.Not(p.before), b.Not(p.after)), nil)
			if withCb {
				sec := secs[0]
				var l *SpecList
				for _, x := range ex.lists {
					if x.N == sec.m {
						l = x
					}
				}
				got := ex.content(asSlice(ex, ex.load(ex.ptrTo(fired))))
				ex.assertEq("exactly the keys whose deadline has passed are reported, each once", StrV{got}, StrV{ex.win(listBase{l}, b.I(0), sec.m)})
			}
		},
	}
	ex.spawned[0]()
	ex.failNow("the checks go on", "the goroutine ends")
}

// queueJobs: what container/heap requires of the queue.
func queueJobs(w *World, tt *types.Named) []job {
	setup := func(ex *Ex) (*timerEnv, *posBase, SliceV, PtrV) {
		b := ex.b
		t := newTimerEnv(ex, w, b.Var("seconds", BV(64)), FuncV{Nil: b.T})
		if t == nil {
			ex.cut()
		}
		n := b.Var("n", BV(64))
		ex.addInput("n", n)
		ex.assume(b.And(b.SLe(b.I(0), n), b.SLt(n, b.I(1<<30))))
		pb := &posBase{t: t}
		sl := ex.sliceOf(ex.win(pb, b.I(0), n), "q", types.NewPointer(t.et))
		qo := ex.newObj("queue", sl, t.qt)
		return t, pb, sl, ex.ptrTo(qo)
	}
	call := func(ex *Ex, t *timerEnv, q PtrV, name string, args ...Value) Value {
		fn := w.method(t.qt, name)
		if fn == nil {
			ex.failNow("exists", "the queue has no method "+name)
			ex.cut()
		}
		var recv Value = q
		if _, ok := fn.Signature.Recv().Type().(*types.Pointer); !ok {
			recv = q.O.Val
		}
		return ex.callFn(fn, append([]Value{recv}, args...), nil, "root")
	}
	field := func(o *Obj, i int) Value { return o.Val.(StructV).F[i] }
	ptrAt := func(ex *Ex, s SliceV, i *Term) *Obj {
		p, ok := ex.seqAt(ex.content(s), i).(PtrV)
		if !ok {
			ex.unsupported("queue content")
		}
		return p.O
	}
	mk := func(name string, f func(ex *Ex)) job {
		return job{"timer:queue:" + name, func(w *World, e *Engine) { e.Explore(f) }}
	}
	rng := func(ex *Ex, name string, n *Term) *Term {
		b := ex.b
		i := b.Var(name, BV(64))
		ex.addInput(name, i)
		ex.assume(b.And(b.SLe(b.I(0), i), b.SLt(i, n)))
		return i
	}
	return []job{
		mk("Len", func(ex *Ex) {
			t, _, sl, q := setup(ex)
			r := call(ex, t, q, "Len")
			ex.ok("no-panic")
			ex.assertEq("queue: Len is the number of elements", r, sl.Len)
		}),
		mk("Less", func(ex *Ex) {
			t, pb, sl, q := setup(ex)
			b := ex.b
			i, j := rng(ex, "i", sl.Len), rng(ex, "j", sl.Len)
			r := call(ex, t, q, "Less", i, j)
			ex.ok("no-panic")
			di, dj := field(pb.obj(ex, i), t.di).(*Term), field(pb.obj(ex, j), t.di).(*Term)
			// any order that puts earlier deadlines first will do
			ex.assert("queue: an earlier deadline comes first", b.And(b.Implies(b.SLt(di, dj), r.(*Term)), b.Implies(b.SLt(dj, di), b.Not(r.(*Term)))), nil)
		}),
		mk("Swap", func(ex *Ex) {
			t, pb, sl, q := setup(ex)
			b := ex.b
			i, j, k := rng(ex, "i", sl.Len), rng(ex, "j", sl.Len), rng(ex, "other", sl.Len)
			eq := ex.choose(b.Eq(i, j))
			oi := pb.obj(ex, i)
			oj := oi
			if !eq {
				oj = pb.obj(ex, j)
			}
			ex.choose(b.SLt(i, j))
			other := ex.choose(b.And(b.Ne(k, i), b.Ne(k, j)))
			var ok *Obj
			if other {
				ex.choose(b.SLt(k, i))
				ex.choose(b.SLt(k, j))
				ok = pb.obj(ex, k)
			}
			wantI, wantJ := oi.Val.(StructV), oj.Val.(StructV)
			call(ex, t, q, "Swap", i, j)
			ex.ok("no-panic")
			now := q.O.Val.(SliceV)
			ex.assertEq("queue: Swap keeps the number of elements", now.Len, sl.Len)
			ex.assert("queue: Swap exchanges the two elements", b.Bool(ptrAt(ex, now, i) == oj && ptrAt(ex, now, j) == oi), nil)
			ex.assertEq("queue: elements know their positions after Swap", field(oj, t.ii), i)
			ex.assertEq("queue: elements know their positions after Swap", field(oi, t.ii), j)
			for _, f := range []int{t.ki, t.di} {
				ex.assertEq("queue: Swap leaves keys and deadlines alone", field(oi, f), wantI.F[f])
				ex.assertEq("queue: Swap leaves keys and deadlines alone", field(oj, f), wantJ.F[f])
			}
			if other {
				ex.assert("queue: Swap leaves the others alone", b.Bool(ptrAt(ex, now, k) == ok), nil)
				ex.assertEq("queue: Swap leaves the others alone", field(ok, t.ii), k)
			}
		}),
		mk("Push", func(ex *Ex) {
			t, pb, sl, q := setup(ex)
			b := ex.b
			sv := StructV{F: append([]Value{}, ex.zero(t.et).(StructV).F...)}
			sv.F[t.ki] = StrV{ex.strSeq(b.Var("newkey", US("Str")))}
			sv.F[t.di] = b.Var("newdeadline", BV(64))
			o := ex.newObj("new", sv, t.et)
			has := ex.choose(b.SLt(b.I(0), sl.Len))
			var k *Term
			var ok *Obj
			if has {
				k = rng(ex, "other", sl.Len)
				ok = pb.obj(ex, k)
			}
			call(ex, t, q, "Push", IfaceV{Nil: b.F, T: types.NewPointer(t.et), V: ex.ptrTo(o)})
			ex.ok("no-panic")
			now := q.O.Val.(SliceV)
			ex.assertEq("queue: Push adds one element", now.Len, b.Add(sl.Len, b.I(1)))
			if !ex.valid(b.Eq(now.Len, b.Add(sl.Len, b.I(1)))) {
				return
			}
			ex.assert("queue: Push puts the element last", b.Bool(ptrAt(ex, now, sl.Len) == o), nil)
			ex.assertEq("queue: the pushed element knows its position", field(o, t.ii), sl.Len)
			ex.assertEq("queue: Push leaves key and deadline alone", field(o, t.ki), sv.F[t.ki])
			ex.assertEq("queue: Push leaves key and deadline alone", field(o, t.di), sv.F[t.di])
			if has {
				ex.assert("queue: Push leaves the others alone", b.Bool(ptrAt(ex, now, k) == ok), nil)
				ex.assertEq("queue: Push leaves the others alone", field(ok, t.ii), k)
			}
		}),
		mk("Pop", func(ex *Ex) {
			t, pb, sl, q := setup(ex)
			b := ex.b
			ex.assume(b.SLt(b.I(0), sl.Len))
			last := b.Sub(sl.Len, b.I(1))
			o := pb.obj(ex, last)
			before := o.Val.(StructV)
			has := ex.choose(b.SLt(b.I(0), last))
			var k *Term
			var ok *Obj
			if has {
				k = rng(ex, "other", last)
				ok = pb.obj(ex, k)
			}
			r := call(ex, t, q, "Pop")
			ex.ok("no-panic")
			now := q.O.Val.(SliceV)
			ex.assertEq("queue: Pop removes one element", now.Len, last)
			iv, _ := r.(IfaceV)
			p, okp := iv.V.(PtrV)
			ex.assert("queue: Pop returns the last element", b.Bool(okp && p.O == o), nil)
			ex.assertEq("queue: Pop leaves key and deadline alone", field(o, t.ki), before.F[t.ki])
			ex.assertEq("queue: Pop leaves key and deadline alone", field(o, t.di), before.F[t.di])
			if has && ex.valid(b.Eq(now.Len, last)) {
				ex.assert("queue: Pop leaves the others alone", b.Bool(ptrAt(ex, now, k) == ok), nil)
				ex.assertEq("queue: Pop leaves the others alone", field(ok, t.ii), k)
			}
		}),
	}
}

// posBase: a queue whose elements know their positions.
type posBase struct {
	t   *timerEnv
	pos []*Term
	os  []*Obj
}

func (p *posBase) Key() string { return "queuepos" }
func (p *posBase) obj(ex *Ex, i *Term) *Obj {
	b := ex.b
	for n, x := range p.pos {
		if x == i || ex.choose(b.Eq(x, i)) {
			return p.os[n]
		}
	}
	sv := StructV{F: append([]Value{}, ex.zero(p.t.et).(StructV).F...)}
	sv.F[p.t.ki] = StrV{ex.strSeq(b.App("qkey", US("Str"), i))}
	sv.F[p.t.di] = b.App("qexp", BV(64), i)
	sv.F[p.t.ii] = i
	o := ex.newObj("qelem", sv, p.t.et)
	p.pos = append(p.pos, i)
	p.os = append(p.os, o)
	return o
}
func (p *posBase) At(ex *Ex, i *Term) Value { return ex.ptrTo(p.obj(ex, i)) }
