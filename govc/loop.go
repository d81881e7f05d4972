package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- loops ------------------------------------------------------------------
// A loop is unrolled while every iteration has an exit test decided by constant
// folding; otherwise it is cut with an inductive invariant: each modified
// component (header phi or heap leaf) gets a closed form in the ghost iteration
// counter k, checked at the back edge, plus Houdini facts. A loop may be bound
// to a list of the specification (one element per iteration).

type SpecList struct {
	Key    string
	N      *Term                                              // number of elements (when the list is well formed)
	P      func(ex *Ex, k *Term) *Term                        // start offset of element k (nil: no offsets)
	Elem   func(ex *Ex, j *Term) Value                        // element value
	Unfold func(ex *Ex, k *Term) int                          // 0: k==N, 1: element k exists and is well formed, 2: malformed
	Flat   Flattener                                          // encoded contributions
	Forms  []func(ex *Ex, init Value, k *Term) (Value, bool)  // extra closed forms
	Match  []func(ex *Ex, k *Term) *Term                      // which elements a filtering loop keeps
	Kept   func(ex *Ex, v int, tmpl Value, kv, i *Term) Value // what a loop keeps of its i-th matching element
	Visit  []Visit
}

// Visit describes a map whose entry for a key is made or removed in the
// iteration of one element.
type Visit struct {
	Vis func(ex *Ex, key Value, k *Term) *Term              // the key's element comes before k
	At  func(ex *Ex, tmpl Value, kv *Term, key Value) Value // the template at the key's element
}

// cnt: how many of the first k elements match.
func (l *SpecList) cnt(ex *Ex, v int, k *Term) *Term {
	b := ex.b
	f := func(k *Term) *Term { return b.App(fmt.Sprintf("cnt%d:%s", v, l.Key), BV(64), k) }
	ex.assume(b.Eq(f(b.I(0)), b.I(0)))
	c := f(k)
	if k.isConst() && k.Val == 0 {
		return b.I(0)
	}
	ex.assume(b.And(b.SLe(b.I(0), c), b.SLe(c, k)))
	return c
}

// idx: the i-th matching element.
func (l *SpecList) idx(ex *Ex, v int, i *Term) *Term {
	return ex.b.App(fmt.Sprintf("idx%d:%s", v, l.Key), BV(64), i)
}

// cntStep: the count after element k.
func (l *SpecList) cntStep(ex *Ex, v int, k *Term) {
	b := ex.b
	m := l.Match[v](ex, k)
	c, c1 := l.cnt(ex, v, k), l.cnt(ex, v, b.Add(k, b.I(1)))
	ex.assume(b.Eq(c1, b.Add(c, b.Ite(m, b.I(1), b.I(0)))))
	ex.assume(b.Implies(m, b.Eq(l.idx(ex, v, c), k)))
}

// markBase: an array in which the elements of a list have set a mark each.
type markBase struct {
	vi   Visit
	k    *Term
	init *Seq
	val  Value
	key  string
}

func (f *markBase) Key() string { return f.key }
func (f *markBase) At(ex *Ex, i *Term) Value {
	if ex.onLookup != "" {
		ex.bindFor(i, ex.onLookup)
	}
	if ex.choose(f.vi.Vis(ex, i, f.k)) {
		return f.val
	}
	return ex.seqAt(f.init, i)
}

// keptBase: what was kept of the matching elements of a list.
type keptBase struct {
	l    *SpecList
	v    int
	tmpl Value
	kv   *Term
	key  string
}

func (f *keptBase) Key() string              { return f.key }
func (f *keptBase) At(ex *Ex, i *Term) Value { return f.l.Kept(ex, f.v, f.tmpl, f.kv, i) }

// substVal: the value with terms replaced, in copies of the memory it points to.
func (ex *Ex) substVal(v Value, m map[*Term]*Term) Value {
	switch x := v.(type) {
	case *Term:
		return ex.b.Subst(x, m)
	case StrV:
		return StrV{ex.substSeq(x.S, m)}
	case *Seq:
		return ex.substSeq(x, m)
	case StructV:
		fs := make([]Value, len(x.F))
		for i := range fs {
			fs[i] = ex.substVal(x.F[i], m)
		}
		return StructV{F: fs}
	case BufV:
		return BufV{ex.substSeq(x.S, m)}
	case PtrV:
		if x.O == nil || len(x.Path) > 0 {
			return x
		}
		return PtrV{O: ex.newObj("copy", ex.substVal(x.O.Val, m), x.O.Typ), Nil: ex.b.Subst(x.Nil, m)}
	case IfaceV:
		r := x
		r.Nil = ex.b.Subst(x.Nil, m)
		if x.Id != nil {
			r.Id = ex.b.Subst(x.Id, m)
		}
		if x.V != nil {
			r.V = ex.substVal(x.V, m)
		}
		return r
	}
	return v
}
func (ex *Ex) substSeq(s *Seq, m map[*Term]*Term) *Seq {
	var out []Seg
	for _, g := range s.Segs {
		switch {
		case g.Elems != nil:
			es := make([]Value, len(g.Elems))
			for i := range es {
				es[i] = ex.substVal(g.Elems[i], m)
			}
			g.Elems = es
		case g.B != nil:
			if sb, ok := g.B.(StrBase); ok {
				t := ex.b.Subst(sb.T, m)
				if g.N == ex.slen(sb.T) && g.From.isConst() && g.From.Val == 0 {
					out = append(out, ex.strSeq(t).Segs...)
					continue
				}
				g.B = StrBase{t}
			}
			g.From, g.N = ex.b.Subst(g.From, m), ex.b.Subst(g.N, m)
		}
		out = append(out, g)
	}
	return ex.mkSeq(out...)
}

// hasTerm: the map has the key; valAt: the value under a key it has.
func (ex *Ex) hasTerm(m MapV, key Value) *Term {
	b := ex.b
	has := b.F
	if m.Base != nil {
		has = m.Base.Has(ex, key)
	}
	for i := len(m.Ents) - 1; i >= 0; i-- {
		eq := ex.goEq(m.Ents[i].K, key)
		if m.Ents[i].V == nil {
			has = b.And(b.Not(eq), has)
		} else {
			has = b.Or(eq, has)
		}
	}
	return has
}
func (ex *Ex) valAt(m MapV, key Value) Value {
	for _, e := range m.Ents {
		if ex.choose(ex.goEq(e.K, key)) {
			return e.V
		}
	}
	if m.Base == nil {
		return nil
	}
	return m.Base.Val(ex, key)
}

func (l *SpecList) At(ex *Ex, i *Term) Value { return l.Elem(ex, i) }
func (l *SpecList) KeyStr() string           { return l.Key }

type listBase struct{ l *SpecList }

func (l listBase) At(ex *Ex, i *Term) Value { return l.l.Elem(ex, i) }
func (l listBase) Key() string              { return l.l.Key }

type SpecFold struct{}

type Cand struct {
	Kind string // same affine pos xor nil win flat rep slide slidepos fill prefix custom poison havoc
	Step uint64
	Arg  Value
	Idx  int
	Base *Term
}

type Comp struct {
	Key   string
	Cands []Cand
	Cur   int
	Live  bool
}

type Plan struct {
	Inv     bool
	Bind    int  // -1: none
	Last    bool // final attempt: no binding, havoc allowed
	Comps   map[string]*Comp
	Facts   map[string]*Term
	Dropped map[string]bool
	Meas    map[string]*Term
	Tries   int
	Flip    map[string]bool // components already moved to offsets under this binding
	NLists  int
}

type LoopInst struct {
	head      *ssa.BasicBlock
	depth     int
	plan      *Plan
	key       string
	static    string
	iter      int
	constExit bool
	di0       int // decisions taken when the iteration began
	k         *Term
	nobj      int
	initObj   []Value
	headObj   []Value
	initPhi   map[*ssa.Phi]Value
	headPhi   map[*ssa.Phi]Value
	hv        map[string]*Term // comp key -> havoc variable
	hinit     map[string]*Term
	list      *SpecList
	state     int
	facts     map[string]*Term
	path0     int
	id        int
	seq0      int
	kseen     map[int]bool
	service   bool
}

// Service describes a loop that runs for the lifetime of a goroutine: one
// iteration from an arbitrary state is checked, and what it did at its end.
type Service struct {
	match  func(fr *Frame, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool
	shared func(o *Obj) bool // state that others change at any time (never relied on across iterations)
	begin  func()
	cut    func()
}

// reaches: some instruction of the blocks, or of functions of the repository
// they call, satisfies p.
func reaches(blocks map[*ssa.BasicBlock]bool, p func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var inBlock func(b *ssa.BasicBlock) bool
	inBlock = func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if p(in) {
				return true
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				fn := c.Common().StaticCallee()
				if fn == nil || seen[fn] || fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), "gitee.com/coco/go808") {
					continue
				}
				seen[fn] = true
				for _, x := range fn.Blocks {
					if inBlock(x) {
						return true
					}
				}
			}
		}
		return false
	}
	for b := range blocks {
		if inBlock(b) {
			return true
		}
	}
	return false
}

type poisonUse struct {
	li  *LoopInst
	key string
}
type poisonInfo struct {
	depth int
	plan  *Plan
	key   string
}

func (ex *Ex) usePoison(v Value) {
	if o, ok := v.(OpqV); ok && o.Kind == "poison" {
		pi := o.Data.(*poisonInfo)
		c := pi.plan.Comps[pi.key]
		if c == nil || c.Live {
			ex.unsupported("use of an unmodelled loop-carried value " + pi.key)
		}
		if ex.e.Trace {
			fmt.Printf("    live: %s at %s\n", pi.key, ex.where())
		}
		c.Live = true
		ex.advance(pi.plan, c, pi.depth)
	}
}

type loopInfo struct {
	header map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func (e *Engine) loopsOf(fn *ssa.Function) *loopInfo {
	e.W.mu.Lock()
	defer e.W.mu.Unlock()
	if e.W.loops == nil {
		e.W.loops = map[*ssa.Function]*loopInfo{}
	}
	if li, ok := e.W.loops[fn]; ok {
		return li
	}
	li := &loopInfo{header: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, p := range b.Preds {
			if b.Dominates(p) {
				body := li.header[b]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{b: true}
					li.header[b] = body
				}
				stack := []*ssa.BasicBlock{p}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	e.W.loops[fn] = li
	return li
}

func (ex *Ex) phiVals(fr *Frame, from, to *ssa.BasicBlock) ([]*ssa.Phi, []Value) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	var ps []*ssa.Phi
	var vs []Value
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, ex.val(fr, p.Edges[idx]))
	}
	return ps, vs
}

func (ex *Ex) enter(fr *Frame, from, to *ssa.BasicBlock) *ssa.BasicBlock {
	info := ex.e.loopsOf(fr.fn)
	for len(fr.loops) > 0 && !info.header[fr.loops[len(fr.loops)-1].head][to] {
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	ps, vs := ex.phiVals(fr, from, to)
	if body := info.header[to]; body != nil {
		if n := len(fr.loops); n > 0 && fr.loops[n-1].head == to {
			ex.backedge(fr, fr.loops[n-1], ps, vs)
		} else {
			vs = ex.loopEntry(fr, to, ps, vs)
		}
	}
	for i, p := range ps {
		fr.env[p] = vs[i]
	}
	return to
}

// branch decides an If and records loop exit tests.
func (ex *Ex) branch(fr *Frame, blk *ssa.BasicBlock, c *Term) bool {
	ex.usePoison(c)
	flip := false
	info := ex.e.loopsOf(fr.fn)
	for i := len(fr.loops) - 1; i >= 0; i-- {
		li := fr.loops[i]
		body := info.header[li.head]
		if !body[blk] {
			continue
		}
		o0, o1 := !body[blk.Succs[0]], !body[blk.Succs[1]]
		if o0 == o1 {
			continue
		}
		if !li.plan.Inv {
			if hasHeadExit(info, li.head) {
				if blk == li.head {
					li.constExit = c.isConst() && ex.di == li.di0 && !pointerTest(blk)
				}
			} else if c.isConst() && li.iter < 24 && ex.di == li.di0 {
				li.constExit = true
			}
			continue
		}
		stay := c
		if o0 {
			stay = ex.b.Not(c)
		}
		ex.exitTest(li, stay)
		if o0 {
			flip = true
		}
	}
	if flip { // the way that stays in the loop comes first, whichever branch it is
		return !ex.choose(ex.b.Not(c))
	}
	return ex.choose(c)
}

// pointerTest: the block's branch compares pointers or interfaces, so that a
// constant outcome says nothing about how often the loop runs.
func pointerTest(blk *ssa.BasicBlock) bool {
	f, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c := f.Cond
	for {
		n, isNot := c.(*ssa.UnOp)
		if !isNot || n.Op != token.NOT {
			break
		}
		c = n.X
	}
	bo, ok := c.(*ssa.BinOp)
	if !ok {
		return false
	}
	switch bo.X.Type().Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

func hasHeadExit(info *loopInfo, h *ssa.BasicBlock) bool {
	if len(h.Succs) != 2 {
		return false
	}
	body := info.header[h]
	return body[h.Succs[0]] != body[h.Succs[1]]
}

// addFact proposes an inductive fact for a loop.
func (ex *Ex) addFact(li *LoopInst, t *Term) {
	if t.isConst() || !ex.factVars(li, t) {
		return
	}
	s := ex.b.Str(t)
	if li.plan.Facts[s] == nil && !li.plan.Dropped[s] && len(li.plan.Facts) < 12 {
		li.plan.Facts[s] = t
		// restart only when it is not already known to hold here and nothing failed without it
		if !ex.valid(t) || ex.failedUnder(li.depth) {
			panic(restart{li.depth})
		}
	}
}

// failedUnder: an obligation failed on an earlier path of this loop.
func (ex *Ex) failedUnder(depth int) bool {
	for _, f := range ex.e.Fails {
		if hasPrefix(f.dec, ex.dec[:depth]) {
			return true
		}
	}
	return false
}

// indexFact proposes a fact about an index term for the innermost loop whose
// counter the index follows.
func (ex *Ex) indexFact(i, fact *Term) {
	if len(ex.stack) == 0 {
		return
	}
	ls := ex.stack[len(ex.stack)-1].loops
	for j := len(ls) - 1; j >= 0; j-- {
		if ls[j].plan.Inv && mentions(i, ls[j].k) {
			ex.addFact(ls[j], fact)
			return
		}
	}
}

// bindFor: the innermost loop whose counter the term mentions, if it follows no
// list yet, follows the named one.
func (ex *Ex) bindFor(t *Term, key string) {
	for i := len(ex.stack) - 1; i >= 0; i-- {
		ls := ex.stack[i].loops
		for j := len(ls) - 1; j >= 0; j-- {
			if !ls[j].plan.Inv || !counts(t, ls[j].k) {
				continue
			}
			if pl := ls[j].plan; pl.Bind < 0 && !pl.Last {
				for n, l := range ex.lists {
					if l.Key == key {
						pl.Bind = n - 1
						ex.nextBind(pl, ls[j].depth)
					}
				}
			}
			return
		}
	}
}

// counts: the term is made of the loop counter.
func counts(t, k *Term) bool {
	if t == k {
		return true
	}
	if t.Op == OApp || t.Op == OIte {
		return false
	}
	for _, a := range t.Args {
		if counts(a, k) {
			return true
		}
	}
	return false
}

func mentions(t, v *Term) bool {
	if t == v {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, v) {
			return true
		}
	}
	return false
}

// exitTest derives candidate facts and measures from a loop test.
func (ex *Ex) exitTest(li *LoopInst, stay *Term) {
	b := ex.b
	addFact := func(t *Term) { ex.addFact(li, t) }
	addMeas := func(t *Term) {
		if t.isConst() || t.S.W != 64 || !ex.factVars(li, t) {
			return
		}
		li.plan.Meas[b.Str(t)] = t
	}
	switch stay.Op {
	case OSLt:
		x, y := stay.Args[0], stay.Args[1]
		addMeas(b.Sub(y, x))
		addFact(b.SLe(x, y))
	case OSLe:
		x, y := stay.Args[0], stay.Args[1]
		addMeas(b.Add(b.Sub(y, x), b.C(x.S.W, 1)))
	case OULt:
		x, y := stay.Args[0], stay.Args[1]
		if x.S.W < 64 {
			x, y = b.Zext(64, x), b.Zext(64, y)
		}
		addMeas(b.Sub(y, x))
		addFact(b.ULe(stay.Args[0], stay.Args[1]))
	case OULe:
		x, y := stay.Args[0], stay.Args[1]
		if x.S.W < 64 {
			x, y = b.Zext(64, x), b.Zext(64, y)
		}
		addMeas(b.Add(b.Sub(y, x), b.I(1)))
	case ONot:
		if e := stay.Args[0]; e.Op == OEq && e.Args[0].S.Name == "BV" && e.Args[0].S.W == 64 {
			x, y := e.Args[0], e.Args[1]
			addMeas(b.Sub(y, x))
			addMeas(b.Sub(x, y))
			addFact(b.SLe(x, y))
			addFact(b.SLe(y, x))
		}
	}
}

// factVars: the term only mentions loop-invariant terms, k and this loop's havoc variables.
func (ex *Ex) factVars(li *LoopInst, t *Term) bool {
	seen := map[*Term]bool{}
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if t.Op == OVar {
			var n int
			if _, err := fmt.Sscanf(t.Name, "v%d!", &n); err == nil {
				return n <= li.seq0
			}
			if strings.HasPrefix(t.Name, "k@") || strings.HasPrefix(t.Name, "h@") {
				if _, err := fmt.Sscanf(t.Name[2:], "%d", &n); err == nil {
					return li.kseen[n]
				}
			}
		}
		for _, a := range t.Args {
			if !ok(a) {
				return false
			}
		}
		return true
	}
	return ok(t)
}

func (ex *Ex) loopEntry(fr *Frame, to *ssa.BasicBlock, ps []*ssa.Phi, vs []Value) []Value {
	static := fmt.Sprintf("%s/%s@%d", fr.site, fr.fn.String(), to.Index)
	// a loop inside an unrolled one is planned per iteration of the latter
	for _, f := range ex.stack {
		for _, l := range f.loops {
			if l.iter > 0 {
				static += fmt.Sprintf("#%d", l.iter)
			}
		}
	}
	ex.loopN++
	key := static + fmt.Sprint(ex.loopN, ex.dec[:ex.di])
	pl := ex.e.plans[key]
	if pl == nil {
		if s := ex.e.seeds[static]; s != nil && s.NLists == len(ex.lists) {
			pl = s.clone()
		} else {
			pl = &Plan{Bind: -1, Comps: map[string]*Comp{}, Facts: map[string]*Term{}, Dropped: map[string]bool{}, Meas: map[string]*Term{}, NLists: len(ex.lists)}
		}
		ex.e.plans[key] = pl
	}
	if pl.Tries > 400 {
		ex.unsupported("no loop invariant found")
	}
	li := &LoopInst{head: to, depth: ex.di, di0: ex.di, plan: pl, key: key, static: static}
	fr.loops = append(fr.loops, li)
	if sv := ex.service; sv != nil && sv.match(fr, to, ex.e.loopsOf(fr.fn).header[to]) {
		li.service = true
		pl.Inv = true
		defer sv.begin()
	}
	if !pl.Inv {
		return vs
	}
	b := ex.b
	id, ok := ex.e.planIDs[key]
	if !ok {
		id = len(ex.e.planIDs) + 1
		ex.e.planIDs[key] = id
	}
	li.id = id
	ex.kseen[id] = true
	li.kseen = map[int]bool{}
	for i := range ex.kseen {
		li.kseen[i] = true
	}
	li.seq0 = ex.seq
	li.k = b.Var(fmt.Sprintf("k@%d", id), BV(64))
	li.nobj = len(ex.objs)
	li.hv, li.hinit = map[string]*Term{}, map[string]*Term{}
	for _, o := range ex.objs {
		li.initObj = append(li.initObj, o.Val)
	}
	if pl.Bind >= 0 && pl.Bind < len(ex.lists) {
		li.list = ex.lists[pl.Bind]
	} else if pl.Bind >= 0 {
		ex.nextBind(pl, li.depth)
	}
	// candidate facts must hold on entry
	// (checked after the havoc variables are known, by substitution)
	ex.assume(b.And(b.SLe(b.I(0), li.k), b.SLt(li.k, b.I(1<<41))))
	li.initPhi, li.headPhi = map[*ssa.Phi]Value{}, map[*ssa.Phi]Value{}
	out := make([]Value, len(vs))
	pcBefore := len(ex.pc)
	_ = pcBefore
	for i, p := range ps {
		li.initPhi[p] = vs[i]
		ck := "phi:" + p.Name()
		out[i] = vs[i]
		if c := pl.Comps[ck]; c != nil {
			ex.entryCheck(li, c, vs[i], p.Type())
			out[i] = ex.form(li, c, vs[i], li.k, p.Type(), true)
		}
		li.headPhi[p] = out[i]
	}
	for oi := 0; oi < li.nobj; oi++ {
		o := ex.objs[oi]
		o.Val = ex.applyHeap(li, "o:"+o.Name, o.Val, o.Typ)
	}
	// facts
	li.facts = map[string]*Term{}
	for s, f := range pl.Facts {
		if pl.Dropped[s] {
			continue
		}
		if !ex.valid(ex.factAt(li, f, true, nil, nil)) {
			pl.Dropped[s] = true
			continue
		}
		li.facts[s] = f
	}
	for _, s := range sortedTermKeys(li.facts) {
		ex.assume(li.facts[s])
	}
	li.path0 = len(ex.pc)
	if li.list != nil {
		if li.list.P != nil {
			if p0 := li.list.P(ex, b.I(0)); p0 != nil {
				_ = p0
			}
		}
		li.state = li.list.Unfold(ex, li.k)
	}
	for oi := 0; oi < li.nobj; oi++ {
		li.headObj = append(li.headObj, ex.objs[oi].Val)
	}
	return out
}

func sortedTermKeys(m map[string]*Term) []string {
	x := map[string]bool{}
	for k := range m {
		x[k] = true
	}
	return sortedKeys(x)
}

// factAt instantiates a fact at entry (k=0, initial values) or after an iteration.
func (ex *Ex) factAt(li *LoopInst, f *Term, entry bool, _ []*ssa.Phi, cur map[string]*Term) *Term {
	m := map[*Term]*Term{}
	if entry {
		m[li.k] = ex.b.I(0)
		for k, h := range li.hv {
			if li.hinit[k] != nil {
				m[h] = li.hinit[k]
			}
		}
	} else {
		m[li.k] = ex.b.Add(li.k, ex.b.I(1))
		for k, h := range li.hv {
			if cur[k] != nil {
				m[h] = cur[k]
			}
		}
	}
	return ex.b.Subst(f, m)
}

func (pl *Plan) clone() *Plan {
	n := &Plan{NLists: pl.NLists, Inv: pl.Inv, Bind: pl.Bind, Last: pl.Last, Comps: map[string]*Comp{}, Facts: map[string]*Term{}, Dropped: map[string]bool{}, Meas: map[string]*Term{}}
	for k, c := range pl.Comps {
		cc := *c
		n.Comps[k] = &cc
	}
	return n
}

// applyHeap applies component forms to the leaves of a heap value.
func (ex *Ex) applyHeap(li *LoopInst, key string, v Value, t types.Type) Value {
	if c := li.plan.Comps[key]; c != nil {
		ex.entryCheck(li, c, v, t)
		return ex.form(li, c, v, li.k, t, true)
	}
	has := false
	for k := range li.plan.Comps {
		if strings.HasPrefix(k, key+".") {
			has = true
			break
		}
	}
	if !has {
		return v
	}
	if sv, ok := v.(StructV); ok {
		fs := make([]Value, len(sv.F))
		for i := range fs {
			var ft types.Type
			if t != nil {
				if st, ok := t.Underlying().(*types.Struct); ok {
					ft = st.Field(i).Type()
				}
			}
			fs[i] = ex.applyHeap(li, fmt.Sprintf("%s.%d", key, i), sv.F[i], ft)
		}
		return StructV{F: fs}
	}
	return v
}

func (ex *Ex) entryCheck(li *LoopInst, c *Comp, init Value, t types.Type) {
	switch c.Cands[c.Cur].Kind {
	case "nil":
		iv, ok := init.(IfaceV)
		if !ok || !ex.valid(iv.Nil) {
			ex.advance(li.plan, c, li.depth)
		}
	case "custom":
		v, ok := li.list.Forms[c.Cands[c.Cur].Idx](ex, init, ex.b.I(0))
		if !ok || !ex.compEq(c.Cands[c.Cur], init, v) {
			ex.advance(li.plan, c, li.depth)
		}
	}
}

// form gives the closed form of a component at iteration count k.
func (ex *Ex) form(li *LoopInst, c *Comp, init Value, k *Term, t types.Type, header bool) Value {
	b := ex.b
	cd := c.Cands[c.Cur]
	intForm := func(x *Term) *Term {
		switch cd.Kind {
		case "affine":
			kk := k
			if x.S.W < 64 {
				kk = b.Extract(x.S.W-1, 0, k)
			}
			return b.Add(x, b.Mul(kk, b.C(x.S.W, cd.Step)))
		case "count":
			if li.list == nil || cd.Idx >= len(li.list.Match) {
				return nil
			}
			n := li.list.cnt(ex, cd.Idx, k)
			if x.S.W < 64 {
				n = b.Extract(x.S.W-1, 0, n)
			}
			return b.Add(x, b.Mul(n, b.C(x.S.W, cd.Step)))
		case "pos":
			if li.list == nil || li.list.P == nil {
				return nil
			}
			d := b.Sub(li.list.P(ex, k), li.list.P(ex, b.I(0)))
			switch cd.Step {
			case 1:
				return b.Sub(x, d)
			case 2: // what the elements take beyond one unit each
				return b.Sub(b.Add(x, d), k)
			}
			return b.Add(x, d)
		case "xor":
			if li.list == nil {
				return nil
			}
			xf := func(i *Term) *Term { return b.App("xf:"+li.list.Key, BV(8), i) }
			ex.assume(b.Eq(xf(b.I(0)), b.C(8, 0)))
			if header {
				return b.BXor(x, xf(k))
			}
			e, ok := li.list.Elem(ex, li.k).(*Term)
			if !ok || e.S.W != 8 {
				return nil
			}
			ex.assume(b.Eq(xf(k), b.BXor(xf(li.k), e)))
			return b.BXor(b.BXor(x, xf(li.k)), e)
		}
		return nil
	}
	bad := func() Value {
		ex.advance(li.plan, c, li.depth)
		return nil
	}
	switch cd.Kind {
	case "same":
		return init
	case "poison":
		return OpqV{Kind: "poison", Data: &poisonInfo{depth: li.depth, plan: li.plan, key: c.Key}}
	case "nil":
		return ex.nilIface()
	case "custom":
		v, ok := li.list.Forms[cd.Idx](ex, init, k)
		if !ok {
			return bad()
		}
		return v
	}
	switch x := init.(type) {
	case MapV:
		if cd.Kind != "mapadd" && cd.Kind != "mapdel" {
			return bad()
		}
		vi := li.list.Visit[cd.Idx]
		switch cd.Kind {
		case "mapadd":
			return MapV{Base: &SymMap{Name: "collected",
				Has: func(ex *Ex, key Value) *Term { return b.Or(vi.Vis(ex, key, k), ex.hasTerm(x, key)) },
				Val: func(ex *Ex, key Value) Value {
					if ex.choose(vi.Vis(ex, key, k)) {
						return vi.At(ex, cd.Arg, cd.Base, key)
					}
					return ex.valAt(x, key)
				}}}
		case "mapdel":
			return MapV{Base: &SymMap{Name: "remaining",
				Has: func(ex *Ex, key Value) *Term { return b.And(b.Not(vi.Vis(ex, key, k)), ex.hasTerm(x, key)) },
				Val: func(ex *Ex, key Value) Value { return ex.valAt(x, key) }}}
		}
		return bad()
	case *Term:
		if cd.Kind == "havoc" {
			h := b.Var(fmt.Sprintf("h@%d:%s", li.id, c.Key), x.S)
			li.hv[c.Key], li.hinit[c.Key] = h, x
			ex.noteHavoc(li, c)
			return h
		}
		if x.S.Name == "BV" {
			if r := intForm(x); r != nil {
				return r
			}
		}
	case IfaceV:
		if cd.Kind == "havoc" {
			id := b.Var(fmt.Sprintf("h@%d:%s", li.id, c.Key), BV(32))
			ex.noteHavoc(li, c)
			return IfaceV{Nil: b.Eq(id, b.C(32, 0)), Id: id}
		}
	case TimeV, DecV, StrV, PtrV:
		_ = x
	case BufV:
		if s := ex.seqForm(li, cd, x.S, k); s != nil {
			return BufV{S: s}
		}
	case RdrV:
		if p := intForm(x.Pos); p != nil {
			return RdrV{S: x.S, Pos: p}
		}
		if cd.Kind == "havoc" {
			h := b.Var(fmt.Sprintf("h@%d:%s", li.id, c.Key), BV(64))
			li.hv[c.Key], li.hinit[c.Key] = h, x.Pos
			ex.noteHavoc(li, c)
			ex.assume(b.And(b.SLe(b.I(0), h), b.SLe(h, ex.seqLen(x.S))))
			return RdrV{S: x.S, Pos: h}
		}
	case SliceV:
		switch cd.Kind {
		case "filter":
			fb := &keptBase{l: li.list, v: cd.Idx, tmpl: cd.Arg, kv: cd.Base, key: "kept:" + c.Key + ex.vstr(cd.Arg)}
			s := ex.cat(ex.content(x), ex.win(fb, b.I(0), li.list.cnt(ex, cd.Idx, k)))
			var et types.Type
			if t != nil {
				if sl, ok := t.Underlying().(*types.Slice); ok {
					et = sl.Elem()
				}
			}
			r := ex.sliceOf(s, "loop:"+c.Key, et)
			r.Nil = b.And(x.Nil, b.Eq(r.Len, b.I(0)))
			return r
		case "win", "flat", "rep":
			s := ex.seqForm(li, cd, ex.content(x), k)
			var et types.Type
			if t != nil {
				if sl, ok := t.Underlying().(*types.Slice); ok {
					et = sl.Elem()
				}
			}
			r := ex.sliceOf(s, "loop:"+c.Key, et)
			if cd.Kind == "flat" {
				r.Nil = b.And(x.Nil, b.Eq(r.Len, b.I(0))) // elements may add nothing
			} else {
				r.Nil = b.And(x.Nil, b.Eq(k, b.I(0)))
			}
			return r
		case "slide":
			d := b.Mul(k, b.C(64, cd.Step))
			return SliceV{Arr: x.Arr, Off: b.Add(x.Off, d), Len: b.Sub(x.Len, d), Cap: b.Sub(x.Cap, d), Nil: x.Nil}
		case "slidepos":
			d := b.Sub(li.list.P(ex, k), li.list.P(ex, b.I(0)))
			return SliceV{Arr: x.Arr, Off: b.Add(x.Off, d), Len: b.Sub(x.Len, d), Cap: b.Sub(x.Cap, d), Nil: x.Nil}
		case "havoc":
			if t != nil {
				if sl, ok := t.Underlying().(*types.Slice); ok {
					if w, _ := ex.intWidth(sl.Elem()); w == 8 {
						s := b.Var(fmt.Sprintf("h@%d:%s", li.id, c.Key), US("Str"))
						ex.noteHavoc(li, c)
						r := ex.sliceOf(ex.strSeq(s), "havoc:"+c.Key, sl.Elem())
						r.Nil = b.Var(fmt.Sprintf("h@%d:nil:%s", li.id, c.Key), BoolS)
						ex.assume(b.Implies(r.Nil, b.Eq(r.Len, b.I(0))))
						return r
					}
				}
			}
		}
	case *Seq:
		switch cd.Kind {
		case "marks":
			if cd.Idx >= len(li.list.Visit) {
				return bad()
			}
			return ex.win(&markBase{vi: li.list.Visit[cd.Idx], k: k, init: x, val: cd.Arg, key: fmt.Sprintf("marks:%s:%d", c.Key, k.ID)}, b.I(0), ex.seqLen(x))
		case "fill":
			_, tail := ex.split(x, k)
			return ex.cat(ex.win(listBase{li.list}, b.I(0), k), tail)
		case "prefix":
			n := ex.seqLen(x)
			var et types.Type = t
			if at, ok := t.(*types.Array); ok {
				et = at.Elem()
			}
			hb := &havocBase{name: fmt.Sprintf("hp%d", li.k.ID) + c.Key, t: et, ex: ex}
			_, tail := ex.split(x, k)
			_ = n
			return ex.cat(ex.win(hb, b.I(0), k), tail)
		case "havoc", "junk":
			n := ex.seqLen(x)
			var et types.Type = t
			if at, ok := t.(*types.Array); ok {
				et = at.Elem()
			}
			if cd.Kind == "havoc" {
				ex.noteHavoc(li, c)
			}
			hb := &havocBase{name: fmt.Sprintf("ha%d", li.k.ID) + c.Key, t: et, ex: ex}
			return ex.win(hb, b.I(0), n)
		}
		if s := ex.seqForm(li, cd, x, k); s != nil {
			return s
		}
	}
	return bad()
}

type havocBase struct {
	name string
	t    types.Type
	ex   *Ex
}

func (h *havocBase) Key() string { return h.name }
func (h *havocBase) At(ex *Ex, i *Term) Value {
	if h.t != nil {
		if w, _ := ex.intWidth(h.t); w > 0 {
			return ex.b.App(h.name, BV(w), i)
		}
		if bt, ok := h.t.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
			return ex.b.App(h.name, BoolS, i)
		}
	}
	return OpqV{Kind: "havocked"}
}

func (ex *Ex) noteHavoc(li *LoopInst, c *Comp) {
	ex.inexact = true
	ex.e.Havocs[li.static+" "+c.Key] = true
}

func (ex *Ex) seqForm(li *LoopInst, cd Cand, init *Seq, k *Term) *Seq {
	b := ex.b
	switch cd.Kind {
	case "win":
		return ex.cat(init, ex.win(listBase{li.list}, b.I(0), k))
	case "flat":
		return ex.cat(init, ex.mkSeq(Seg{Fl: li.list.Flat, From: b.I(0), To: k}))
	case "rep":
		return ex.cat(init, ex.mkSeq(Seg{Rep: cd.Arg, N: k}))
	}
	return nil
}

// learn proposes candidates for a component from one observed step.
func (ex *Ex) learn(li *LoopInst, key string, init, head, now Value, heap bool) []Cand {
	b := ex.b
	var cs []Cand
	intC := func(h, n *Term) {
		d := b.Sub(n, h)
		unit := d.isConst() && (d.sval() == 1 || d.sval() == -1)
		if unit {
			cs = append(cs, Cand{Kind: "affine", Step: d.Val})
		}
		defer func() {
			if d.isConst() && !unit {
				cs = append(cs, Cand{Kind: "affine", Step: d.Val})
			}
		}()
		if unit {
			for v := 0; v < ex.maxMatch(); v++ {
				cs = append(cs, Cand{Kind: "count", Idx: v, Step: d.Val})
			}
		}
		if h.S.W == 64 {
			cs = append(cs, Cand{Kind: "pos"}, Cand{Kind: "pos", Step: 1}, Cand{Kind: "pos", Step: 2})
		}
		if h.S.W == 8 {
			cs = append(cs, Cand{Kind: "xor"})
		}
	}
	seqC := func(h, n *Seq) {
		cs = append(cs, Cand{Kind: "flat"}, Cand{Kind: "win"})
		// appended exactly one constant element?
		if len(n.Segs) > 0 {
			g := n.Segs[len(n.Segs)-1]
			if g.Elems != nil {
				if t, ok := g.Elems[len(g.Elems)-1].(*Term); ok && t.isConst() {
					cs = append(cs, Cand{Kind: "rep", Arg: t})
				}
			}
		}
	}
	switch h := head.(type) {
	case *Term:
		if n, ok := now.(*Term); ok && h.S.Name == "BV" {
			intC(h, n)
		}
	case RdrV:
		if n, ok := now.(RdrV); ok {
			intC(h.Pos, n.Pos)
		}
	case IfaceV:
		cs = append(cs, Cand{Kind: "nil"})
	case BufV:
		if n, ok := now.(BufV); ok {
			seqC(h.S, n.S)
		}
	case SliceV:
		n, ok := now.(SliceV)
		if ok && h.Arr.O != nil && h.Arr.O == n.Arr.O && samePath(h.Arr.Path, n.Arr.Path) {
			d := b.Sub(n.Off, h.Off)
			cs = append(cs, Cand{Kind: "slidepos"})
			if d.isConst() {
				cs = append(cs, Cand{Kind: "slide", Step: d.Val})
			}
		} else if ok {
			c := ex.content(h)
			for _, g := range c.Segs {
				if _, own := g.B.(*heapSt); own {
					c = nil
					break
				}
			}
			if c != nil {
				seqC(c, ex.content(n))
				if segs := ex.content(n).Segs; len(segs) > 0 && segs[len(segs)-1].Elems != nil {
					es := segs[len(segs)-1].Elems
					for v := 0; v < ex.maxMatch(); v++ {
						cs = append(cs, Cand{Kind: "filter", Idx: v, Arg: es[len(es)-1], Base: li.k})
					}
				}
			}
		}
	case MapV:
		n, ok := now.(MapV)
		if ok && len(n.Ents) == len(h.Ents)+1 && n.Base == h.Base {
			for v := 0; v < ex.maxVisit(); v++ {
				if e := n.Ents[0]; e.V == nil {
					cs = append(cs, Cand{Kind: "mapdel", Idx: v})
				} else {
					cs = append(cs, Cand{Kind: "mapadd", Idx: v, Arg: e.V, Base: li.k})
				}
			}
		}
	case *Seq:
		if n, ok := now.(*Seq); ok && heap && len(n.Segs) > 0 {
			cs = append(cs, Cand{Kind: "fill"})
			for _, g := range n.Segs {
				if len(g.Elems) == 1 {
					if t, ok := g.Elems[0].(*Term); ok && t.isConst() {
						for v := 0; v < ex.maxVisit(); v++ {
							cs = append(cs, Cand{Kind: "marks", Idx: v, Arg: t})
						}
					}
				}
			}
		}
		cs = append(cs, Cand{Kind: "prefix"}, Cand{Kind: "junk"})
	}
	for i := range ex.maxForms() {
		cs = append(cs, Cand{Kind: "custom", Idx: i})
	}
	cs = append(cs, Cand{Kind: "poison"}, Cand{Kind: "havoc"})
	return cs
}
func (ex *Ex) maxForms() []int {
	n := 0
	for _, l := range ex.lists {
		if len(l.Forms) > n {
			n = len(l.Forms)
		}
	}
	return make([]int, n)
}

func (ex *Ex) maxMatch() (n int) {
	for _, l := range ex.lists {
		if len(l.Match) > n {
			n = len(l.Match)
		}
	}
	return
}
func (ex *Ex) maxVisit() (n int) {
	for _, l := range ex.lists {
		if len(l.Visit) > n {
			n = len(l.Visit)
		}
	}
	return
}

// usable: can this candidate be tried under the plan's binding?
func (ex *Ex) usable(pl *Plan, c *Comp, cd Cand) bool {
	var l *SpecList
	if pl.Bind >= 0 && pl.Bind < len(ex.lists) {
		l = ex.lists[pl.Bind]
	}
	switch cd.Kind {
	case "pos", "slidepos":
		return l != nil && l.P != nil
	case "xor":
		return l != nil && l.Elem != nil
	case "win", "fill":
		return l != nil && l.Elem != nil
	case "flat":
		return l != nil && l.Flat != nil
	case "custom":
		return l != nil && cd.Idx < len(l.Forms)
	case "filter", "count":
		return l != nil && cd.Idx < len(l.Match)
	case "mapadd", "mapdel", "marks":
		return l != nil && cd.Idx < len(l.Visit)
	case "junk":
		return !ex.strictBind || pl.Last
	case "poison":
		return !c.Live
	case "havoc":
		return pl.Last || l == nil && len(ex.lists) == 0
	}
	return true
}

// advance moves a component to its next usable candidate and restarts the loop.
func (ex *Ex) advance(pl *Plan, c *Comp, depth int) {
	pl.Tries++
	for c.Cur++; c.Cur < len(c.Cands); c.Cur++ {
		if ex.usable(pl, c, c.Cands[c.Cur]) {
			if ex.e.Trace {
				fmt.Printf("    %s -> %s %d (bind %d)\n", c.Key, c.Cands[c.Cur].Kind, c.Cands[c.Cur].Step, pl.Bind)
			}
			panic(restart{depth})
		}
	}
	if ex.e.Trace {
		fmt.Printf("    no form left for %s at %s\n", c.Key, ex.where())
	}
	// another component may follow the list's offsets rather than a constant step
	for _, k := range sortedCompKeys(pl.Comps) {
		c2 := pl.Comps[k]
		if c2 == c || pl.Flip[k] || c2.Cur >= len(c2.Cands) || c2.Cands[c2.Cur].Kind != "affine" {
			continue
		}
		for i := c2.Cur + 1; i < len(c2.Cands); i++ {
			if c2.Cands[i].Kind == "pos" && ex.usable(pl, c2, c2.Cands[i]) {
				c2.Cur = i
				if pl.Flip == nil {
					pl.Flip = map[string]bool{}
				}
				pl.Flip[k] = true
				for _, c3 := range pl.Comps {
					if c3 == c2 || c3.Cur < len(c3.Cands) && (c3.Cands[c3.Cur].Kind == "pos" || c3.Cands[c3.Cur].Kind == "affine") {
						continue
					}
					c3.Cur = 0
					for c3.Cur < len(c3.Cands)-1 && !ex.usable(pl, c3, c3.Cands[c3.Cur]) {
						c3.Cur++
					}
				}
				if ex.e.Trace {
					fmt.Printf("    %s -> pos (bind %d), others reset\n", c2.Key, pl.Bind)
				}
				panic(restart{depth})
			}
		}
	}
	ex.nextBind(pl, depth)
}
func sortedCompKeys(m map[string]*Comp) []string {
	x := map[string]bool{}
	for k := range m {
		x[k] = true
	}
	return sortedKeys(x)
}
func (ex *Ex) nextBind(pl *Plan, depth int) {
	if pl.Last {
		ex.unsupported("no loop invariant found")
	}
	pl.Bind++
	pl.Flip = nil
	if pl.Bind >= len(ex.lists) {
		pl.Bind, pl.Last = -1, true
	}
	if ex.e.Trace {
		fmt.Printf("    bind %d last %v\n", pl.Bind, pl.Last)
	}
	// keep liveness knowledge, reset the rest
	stuck := false
	for _, c := range pl.Comps {
		c.Cur = -1
		for c.Cur++; c.Cur < len(c.Cands)-1; c.Cur++ {
			if ex.usable(pl, c, c.Cands[c.Cur]) {
				break
			}
		}
		// a component keeps its learned candidates; start from the first usable
		if !ex.usable(pl, c, c.Cands[c.Cur]) {
			stuck = true
		}
	}
	if stuck && !pl.Last && ex.strictBind {
		ex.nextBind(pl, depth)
	}
	pl.Dropped = map[string]bool{}
	pl.Facts = map[string]*Term{}
	pl.Meas = map[string]*Term{}
	pl.Tries++
	panic(restart{depth})
}

func (ex *Ex) backedge(fr *Frame, li *LoopInst, ps []*ssa.Phi, vs []Value) {
	pl := li.plan
	b := ex.b
	if !pl.Inv {
		li.iter++
		if li.constExit && li.iter < 5000 {
			li.constExit = false
			li.di0 = ex.di
			return
		}
		pl.Inv = true
		if s := ex.e.seeds[li.static]; s == nil || !s.Inv || s.NLists != pl.NLists {
			ex.e.seeds[li.static] = pl
		}
		panic(restart{li.depth})
	}
	ex.e.seeds[li.static] = pl
	if li.list != nil && li.state != 1 {
		if ex.e.Trace {
			fmt.Printf("    iteration continues although element state is %d\n", li.state)
		}
		ex.nextBind(pl, li.depth)
	}
	k1 := b.Add(li.k, b.I(1))
	cur := map[string]*Term{}
	learned, scalars := 0, 0
	var tmpls []string
	learn := func(key string, init, head, now Value, t types.Type, heap bool) {
		if pl.Comps[key] != nil || ex.sameValue(head, now) {
			return
		}
		c := &Comp{Key: key, Cands: ex.learn(li, key, init, head, now, heap), Cur: 0}
		for c.Cur < len(c.Cands)-1 && !ex.usable(pl, c, c.Cands[c.Cur]) {
			c.Cur++
		}
		pl.Comps[key] = c
		learned++
		if _, ok := now.(*Term); ok {
			scalars++
		}
		for _, cd := range c.Cands {
			if cd.Base != nil {
				tmpls = append(tmpls, key)
				break
			}
		}
		if ex.e.Trace {
			fmt.Printf("    learn %s -> %s %d (bind %d)\n", c.Key, c.Cands[c.Cur].Kind, c.Cands[c.Cur].Step, pl.Bind)
			fmt.Printf("      head %.150s\n      now  %.150s\n", ex.vstr(head), ex.vstr(now))
		}
	}
	for i, p := range ps {
		learn("phi:"+p.Name(), li.initPhi[p], li.headPhi[p], vs[i], p.Type(), false)
	}
	for oi := 0; oi < li.nobj; oi++ {
		o := ex.objs[oi]
		if li.service && ex.service.shared(o) {
			continue
		}
		ex.heapDiff(pl, "o:"+o.Name, li.initObj[oi], li.headObj[oi], o.Val, o.Typ, learn)
	}
	if scalars > 0 {
		// what one iteration adds is read off only once the counters move:
		// until then they stand at their first values
		for _, k := range tmpls {
			delete(pl.Comps, k)
		}
	}
	if learned > 0 {
		pl.Tries++
		if ex.strictBind && pl.Bind >= 0 && !pl.Last {
			for _, c := range pl.Comps {
				if !ex.usable(pl, c, c.Cands[c.Cur]) {
					ex.nextBind(pl, li.depth)
				}
			}
		}
		panic(restart{li.depth})
	}
	check := func(key string, init, head, now Value, t types.Type, heap bool) {
		c := pl.Comps[key]
		if c == nil {
			return
		}
		cd := c.Cands[c.Cur]
		switch cd.Kind {
		case "poison":
			return
		case "filter", "count":
			li.list.cntStep(ex, cd.Idx, li.k)
		case "junk":
			if s, ok := now.(*Seq); ok && ex.valid(b.Eq(ex.seqLen(s), ex.seqLen(init.(*Seq)))) {
				return
			}
			ex.advance(pl, c, li.depth)
		case "havoc":
			switch n := now.(type) {
			case *Term:
				cur[key] = n
			case RdrV:
				cur[key] = n.Pos
			}
			return
		case "prefix":
			// only the suffix matters
			s, ok := now.(*Seq)
			if ok {
				_, tn := ex.split(s, k1)
				_, ti := ex.split(init.(*Seq), k1)
				if ex.provEq(tn, ti) && ex.valid(b.Eq(ex.seqLen(s), ex.seqLen(init.(*Seq)))) {
					return
				}
			}
			ex.advance(pl, c, li.depth)
		}
		want := ex.form(li, c, init, k1, t, false)
		if ex.compEq(cd, now, want) {
			return
		}
		if ex.e.Trace {
			fmt.Printf("    mismatch %s: now %s want %s\n", key, ex.vstrDeep(now), ex.vstrDeep(want))
		}
		ex.advance(pl, c, li.depth)
	}
	// scalars first: a wrong counter makes every sequence look wrong
	for pass := 0; pass < 2; pass++ {
		chk := func(key string, init, head, now Value, t types.Type, heap bool) {
			seq := 0
			switch init.(type) {
			case SliceV, BufV, *Seq, StrV, StructV:
				seq = 1
			}
			if seq == pass {
				check(key, init, head, now, t, heap)
			}
		}
		for i, p := range ps {
			chk("phi:"+p.Name(), li.initPhi[p], li.headPhi[p], vs[i], p.Type(), false)
		}
		for oi := 0; oi < li.nobj; oi++ {
			o := ex.objs[oi]
			if li.service && ex.service.shared(o) {
				continue
			}
			ex.heapDiff(pl, "o:"+o.Name, li.initObj[oi], li.headObj[oi], o.Val, o.Typ, chk)
		}
	}
	// facts
	bad := false
	for _, s := range sortedTermKeys(li.facts) {
		if !ex.valid(ex.factAt(li, li.facts[s], false, ps, cur)) {
			if ex.e.Trace {
				fmt.Printf("    drop fact %s\n", s)
			}
			pl.Dropped[s] = true
			bad = true
		}
	}
	if bad {
		pl.Tries++
		panic(restart{li.depth})
	}
	if li.service {
		ex.service.cut()
		ex.ended()
		panic(pathEnd{"service loop cut"})
	}
	// termination
	ok := false
	if li.list != nil {
		ok = true // one element of a finite list per iteration
	}
	for _, s := range sortedTermKeys(pl.Meas) {
		m := pl.Meas[s]
		if ok {
			break
		}
		m1 := ex.factAt(li, m, false, ps, cur)
		if ex.valid(b.And(b.SLt(b.I(0), m), b.SLt(m1, m))) {
			ok = true
		}
	}
	label := "termination"
	if !ok && ex.retry != nil && ex.retry() {
		ok = true
	}
	if ok {
		ex.discharged(label, b.T)
	} else {
		ex.e.fail(Fail{Label: label, Kind: "unknown", Detail: "no decreasing measure for the loop", Pos: ex.where(), Inexact: ex.inexact, Model: ex.model(nil)})
	}
	panic(pathEnd{"loop cut"})
}

func (ex *Ex) vstrDeep(v Value) string {
	if s, ok := v.(SliceV); ok {
		return "slice" + ex.seqStr(ex.content(s))
	}
	if s, ok := v.(BufV); ok {
		return "buf" + ex.seqStr(s.S)
	}
	return ex.vstr(v)
}

func (ex *Ex) compEq(cd Cand, now, want Value) bool {
	if o, ok := now.(OpqV); ok && o.Kind == "poison" {
		return false
	}
	switch w := want.(type) {
	case *Seq:
		if n, ok := now.(*Seq); ok && cd.Kind == "marks" {
			l := ex.seqLen(w)
			if !ex.valid(ex.b.Eq(ex.seqLen(n), l)) {
				return false
			}
			i := ex.fresh("anyindex", BV(64))
			if !ex.choose(ex.b.And(ex.b.SLe(ex.b.I(0), i), ex.b.SLt(i, l))) {
				return true
			}
			return ex.provEq(ex.seqAt(n, i), ex.seqAt(w, i))
		}
	case SliceV:
		n, ok := now.(SliceV)
		if !ok {
			return false
		}
		switch cd.Kind {
		case "slide", "slidepos", "same":
			if n.Arr.O != w.Arr.O || !samePath(n.Arr.Path, w.Arr.Path) {
				return false
			}
			return ex.valid(b2(ex, n.Off, w.Off)) && ex.valid(b2(ex, n.Len, w.Len))
		}
		if !ex.valid(ex.b.Eq(n.Nil, w.Nil)) {
			// equal contents have equal lengths
			return ex.provEq(now, want) && ex.valid(ex.b.Implies(ex.b.Eq(n.Len, w.Len), ex.b.Eq(n.Nil, w.Nil)))
		}
	case PtrV:
		n, ok := now.(PtrV)
		return ok && n.O == w.O && samePath(n.Path, w.Path) && n.Nil == w.Nil
	case MapV:
		n, ok := now.(MapV)
		return ok && ex.mapEq != nil && ex.mapEq(n, w)
	}
	return ex.provEq(now, want)
}
func b2(ex *Ex, x, y *Term) *Term { return ex.b.Eq(x, y) }

func (ex *Ex) heapDiff(pl *Plan, key string, init, head, now Value, t types.Type, check func(string, Value, Value, Value, types.Type, bool)) {
	if pl.Comps[key] != nil {
		check(key, init, head, now, t, true)
		return
	}
	hs, ok1 := head.(StructV)
	ns, ok2 := now.(StructV)
	is, ok3 := init.(StructV)
	if ok1 && ok2 && ok3 && len(hs.F) == len(ns.F) {
		for i := range hs.F {
			var ft types.Type
			if t != nil {
				if st, ok := t.Underlying().(*types.Struct); ok {
					ft = st.Field(i).Type()
				}
			}
			ex.heapDiff(pl, fmt.Sprintf("%s.%d", key, i), is.F[i], hs.F[i], ns.F[i], ft, check)
		}
		return
	}
	check(key, init, head, now, t, true)
}

// sameValue: cheap identity, then provable equality.
func (ex *Ex) sameValue(a, c Value) bool {
	if ident(a, c) {
		return true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := c.(*Term)
		return ok && x.S == y.S && ex.valid(ex.b.Eq(x, y))
	case SliceV:
		y, ok := c.(SliceV)
		return ok && x.Arr.O == y.Arr.O && samePath(x.Arr.Path, y.Arr.Path) && ex.valid(ex.b.And(ex.b.Eq(x.Off, y.Off), ex.b.Eq(x.Len, y.Len)))
	case PtrV:
		y, ok := c.(PtrV)
		return ok && x.O == y.O && samePath(x.Path, y.Path) && x.Nil == y.Nil
	case IfaceV:
		y, ok := c.(IfaceV)
		if !ok {
			return false
		}
		if x.Nil.isTrue() && y.Nil.isTrue() {
			return true
		}
		if ex.known(x.Nil) == 1 && ex.known(y.Nil) == 1 {
			return true
		}
		if x.V != nil && y.V != nil && x.Nil == y.Nil && x.Id == y.Id && x.T != nil && y.T != nil && types.Identical(x.T, y.T) {
			return ex.sameValue(x.V, y.V)
		}
		return false
	case RdrV:
		y, ok := c.(RdrV)
		return ok && x.S == y.S && ex.valid(ex.b.Eq(x.Pos, y.Pos))
	case BufV:
		y, ok := c.(BufV)
		return ok && (x.S == y.S || ex.provEq(x, y))
	case MapV:
		y, ok := c.(MapV)
		if !ok || len(x.Ents) != len(y.Ents) || len(x.Del) != len(y.Del) || x.Base != y.Base {
			return false
		}
		for i := range x.Ents {
			if !ex.sameValue(x.Ents[i].K, y.Ents[i].K) || !(x.Ents[i].V == nil && y.Ents[i].V == nil) && !ex.sameValue(x.Ents[i].V, y.Ents[i].V) {
				return false
			}
		}
		return true
	case StrV:
		y, ok := c.(StrV)
		return ok && (x.S == y.S || ex.provEq(x, y))
	case TimeV, DecV, FloatV, StructV, *Seq:
		return ex.provEq(a, c)
	case FuncV:
		y, ok := c.(FuncV)
		if ok && x.Id != nil && y.Id != nil {
			return ex.valid(ex.b.Eq(x.Id, y.Id))
		}
		if !ok || x.Fn != y.Fn || x.Mod != nil || y.Mod != nil || len(x.Bind) != len(y.Bind) || x.Nil != y.Nil {
			return false
		}
		for i := range x.Bind {
			if !ex.sameValue(x.Bind[i], y.Bind[i]) {
				return false
			}
		}
		return true
	case OpqV:
		y, ok := c.(OpqV)
		return ok && x.Kind == y.Kind && x.Kind != "poison" && fmt.Sprintf("%v", x.Data) == fmt.Sprintf("%v", y.Data)
	}
	return false
}
func ident(a, c Value) (r bool) {
	defer func() {
		if recover() != nil {
			r = false
		}
	}()
	return a == c
}
