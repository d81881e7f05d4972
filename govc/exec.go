package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// ---- engine (one per verified root) ---------------------------------------

type Fail struct {
	Root, Label, Detail string
	Kind                string // "refuted", "unknown", "unsupported"
	Pos                 string
	Model               map[string]string
	Inexact             bool
	dec                 []int
}
type oblRec struct {
	label string
	dec   []int
	id    int
}

type Engine struct {
	W          *World
	b          *TermBank
	s          *Solver
	Root       string
	work       []workItem
	plans      map[string]*Plan
	seeds      map[string]*Plan
	planIDs    map[string]int
	errIDs     map[string]int
	obls       []oblRec
	cur        *Ex
	Obl        map[string]int // label -> times discharged
	Fails      []Fail
	failKey    map[string]bool
	Paths      int
	Ends       int // paths that reached the end of the root
	Live       bool
	Fns        map[string]bool // functions executed under this root
	Used       map[string]bool // contracts / models relied on
	Trace      bool
	MaxPath    int
	deadline   time.Time
	StopOnFail bool
	Havocs     map[string]bool
	Wall       time.Duration
}

type workItem struct{ dec []int }

// World holds the loaded program shared by all roots.
type World struct {
	Syntax []*packages.Package
	Prog   *ssa.Program
	Pkgs   map[string]*ssa.Package // by short name
	Repo   map[string]bool
	DB     *specDB
	Trace  bool
	Stub   *ssa.Package
	Stop   time.Time // no root is explored beyond this time (zero: no limit)
	Late   time.Time // after this time, no further root once one has failed
	failed int32
	mu     sync.Mutex
	loops  map[*ssa.Function]*loopInfo
}

func (e *Engine) inRepo(path string) bool { return e.W.Repo[path] }

type pathEnd struct{ why string }
type unsupp struct{ why string }
type restart struct{ depth int }
type goPanic struct {
	val  Value
	kind string
	pos  token.Pos
}

// ---- one path --------------------------------------------------------------

type Ex struct {
	e          *Engine
	b          *TermBank
	dec        []int
	di         int
	pc         []*Term
	pcset      map[*Term]bool
	implied    map[*Term]bool
	eqc        map[*Term]*Term
	slenSeen   map[*Term]bool
	seen       map[string]bool
	objs       []*Obj
	names      map[string]int
	seq        int
	globals    map[*ssa.Global]*Obj
	stack      []*Frame
	lists      []*SpecList
	folds      []*SpecFold
	steps      int
	loopN      int
	kseen      map[int]bool
	memo       map[string]Value
	inexact    bool
	retry      func() bool // the iteration is a retry after interference
	atHookT    *Term       // byte accesses to this string are reported to atHook
	atHook     func(i *Term)
	hooks      map[string]func(ex *Ex, args []Value) (Value, bool) // per-root call hooks
	events     []Event
	inputs     []namedTerm
	panicking  []*goPanic
	nopanic    bool
	monitor    *Monitor
	service    *Service
	mapEq      func(a, c MapV) bool // equality of map contents
	tokens     bool                 // texts made of constants and numbers are compared part by part
	onLookup   string               // the list followed by a loop that looks up its counter in a map
	strictBind bool                 // a binding is tried only when it has a form for every component
	lenFact    func(m MapV, n *Term)
	wholeStr   bool // strings compare as whole values
	spawned    []func() Value
	label      string
	errs       map[string]*Term
}

type namedTerm struct {
	Name string
	T    *Term
}

type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]Value
	loops     []*LoopInst
	defers    []func()
	site      string
	prev      *ssa.BasicBlock
	pos       token.Pos
	recovered bool
}

func NewEngine(w *World, root string) *Engine {
	b := NewBank()
	e := &Engine{W: w, b: b, Root: root, plans: map[string]*Plan{}, seeds: map[string]*Plan{}, planIDs: map[string]int{}, errIDs: map[string]int{}, Obl: map[string]int{}, failKey: map[string]bool{}, Fns: map[string]bool{}, Used: map[string]bool{}, Havocs: map[string]bool{}, MaxPath: 4000}
	e.s = NewSolver(b, 8000)
	e.Trace = w.Trace
	if p := os.Getenv("GOVC_SMTLOG"); p != "" {
		f, _ := os.Create(p)
		e.s.Log = f
	}
	return e
}

// Explore runs all paths of root.
func (e *Engine) Explore(run func(ex *Ex)) {
	defer e.s.Close()
	defer func() {
		seen := map[string]bool{}
		for _, o := range e.obls {
			k := fmt.Sprint(o.label, "|", o.id, "|", o.dec)
			if !seen[k] {
				seen[k] = true
				e.Obl[o.label]++
			}
		}
	}()
	e.work = []workItem{{}}
	e.deadline = time.Now().Add(150 * time.Second)
	if s := e.W.Stop; !s.IsZero() && s.Before(e.deadline) {
		e.deadline = s
	}
	for len(e.work) > 0 {
		it := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.Paths++
		if e.Paths > e.MaxPath || time.Now().After(e.deadline) {
			e.fail(Fail{Label: "exploration", Kind: "unsupported", Detail: fmt.Sprintf("path budget exceeded after %d paths", e.Paths)})
			return
		}
		if e.StopOnFail && len(e.Fails) > 0 {
			return
		}
		e.runPath(it, run)
	}
}

func (e *Engine) newEx(dec []int) *Ex {
	ex := &Ex{e: e, b: e.b, dec: dec, pcset: map[*Term]bool{}, implied: map[*Term]bool{}, eqc: map[*Term]*Term{}, slenSeen: map[*Term]bool{}, seen: map[string]bool{}, names: map[string]int{}, globals: map[*ssa.Global]*Obj{}, hooks: map[string]func(*Ex, []Value) (Value, bool){}, errs: map[string]*Term{}, kseen: map[int]bool{}, memo: map[string]Value{}}
	return ex
}

func (e *Engine) runPath(it workItem, run func(ex *Ex)) {
	ex := e.newEx(append([]int{}, it.dec...))
	e.cur = ex
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case pathEnd:
			if e.Trace {
				fmt.Printf("  [%s] path %v: %s\n", e.Root, ex.dec, r.why)
			}
		case unsupp:
			e.fail(Fail{Label: "subset", Kind: "unsupported", Detail: r.why, Pos: ex.where()})
		case restart:
			if e.Trace {
				fmt.Printf("  [%s] restart at %v\n", e.Root, ex.dec[:r.depth])
			}
			pre := ex.dec[:r.depth]
			var nw []workItem
			for _, w := range e.work {
				if !hasPrefix(w.dec, pre) {
					nw = append(nw, w)
				}
			}
			e.work = append(nw, workItem{append([]int{}, pre...)})
			var nf []Fail
			for _, f := range e.Fails {
				if !hasPrefix(f.dec, pre) {
					nf = append(nf, f)
				}
			}
			e.Fails = nf
			var no []oblRec
			for _, o := range e.obls {
				if !hasPrefix(o.dec, pre) {
					no = append(no, o)
				}
			}
			e.obls = no
		case goPanic:
			ex.reportPanic(r)
		default:
			if os.Getenv("GOVC_CRASH") != "" {
				panic(r)
			}
			e.fail(Fail{Label: "subset", Kind: "unsupported", Detail: fmt.Sprintf("engine: %v", r), Pos: ex.where()})
		}
	}()
	run(ex)
	ex.ended()
	if e.Trace {
		fmt.Printf("  [%s] path %v: end\n", e.Root, ex.dec)
	}
}

// ended: a path got to its end; one such path must be feasible.
func (ex *Ex) ended() {
	e := ex.e
	e.Ends++
	if !e.Live && e.s.Check(ex.pc, nil) == Sat {
		e.Live = true
	}
}
func hasPrefix(d, p []int) bool {
	if len(d) < len(p) {
		return false
	}
	for i := range p {
		if d[i] != p[i] {
			return false
		}
	}
	return true
}
func (ex *Ex) reportPanic(p goPanic) {
	ex.e.fail(Fail{Label: "no-panic", Kind: "refuted", Detail: p.kind, Pos: ex.e.posStr(p.pos), Model: ex.model(nil), Inexact: ex.inexact})
}
func (e *Engine) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	pp := e.W.Prog.Fset.Position(p)
	f := pp.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, pp.Line)
}
func (ex *Ex) where() string {
	for i := len(ex.stack) - 1; i >= 0; i-- {
		if ex.stack[i].pos.IsValid() {
			return ex.e.posStr(ex.stack[i].pos) + " in " + ex.stack[i].fn.String()
		}
	}
	return ""
}
func (e *Engine) fail(f Fail) {
	f.Root = e.Root
	for _, g := range e.Fails {
		if g.Label == f.Label && g.Kind == f.Kind && g.Pos == f.Pos {
			return
		}
	}
	if e.cur != nil {
		f.dec = append([]int{}, e.cur.dec...)
	}
	if e.Trace {
		fmt.Printf("  [%s] FAIL %s %s %s %s\n", e.Root, f.Label, f.Kind, f.Pos, f.Detail)
	}
	e.Fails = append(e.Fails, f)
}

func (ex *Ex) cut()                   { panic(pathEnd{"cut"}) }
func (ex *Ex) end(why string)         { panic(pathEnd{why}) }
func (ex *Ex) unsupported(why string) { panic(unsupp{why}) }

func (ex *Ex) assume(t *Term) {
	if t.isTrue() || ex.pcset[t] {
		return
	}
	if t.Op == OAnd {
		for _, a := range t.Args {
			ex.assume(a)
		}
		return
	}
	if t.isFalse() {
		ex.cut()
	}
	ex.pcset[t] = true
	ex.pc = append(ex.pc, t)
	ex.noteEq(t)
}
func (ex *Ex) noteEq(t *Term) {
	if t.Op == OEq && t.Args[0].S.Name == "BV" {
		if t.Args[0].isConst() {
			ex.eqc[t.Args[1]] = t.Args[0]
		} else if t.Args[1].isConst() {
			ex.eqc[t.Args[0]] = t.Args[1]
		}
	}
}
func (ex *Ex) constVal(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if c, ok := ex.eqc[t]; ok {
		return c
	}
	return nil
}

// known: syntactic knowledge about cond (1 true, 0 false, -1 unknown)
func (ex *Ex) known(c *Term) int {
	if c.isConst() {
		return int(c.Val)
	}
	if ex.pcset[c] || ex.implied[c] {
		return 1
	}
	n := ex.b.Not(c)
	if ex.pcset[n] || ex.implied[n] {
		return 0
	}
	return -1
}

// choose decides cond, forking the path if both outcomes are possible.
func (ex *Ex) choose(c *Term) bool {
	if k := ex.known(c); k >= 0 {
		return k == 1
	}
	if c.Op == OAnd { // decide conjuncts one by one: better facts
		for _, a := range c.Args {
			if !ex.choose(a) {
				return false
			}
		}
		return true
	}
	nc := ex.b.Not(c)
	if nc.Op == OAnd {
		for _, a := range nc.Args {
			if !ex.choose(a) {
				return true
			}
		}
		return false
	}
	var d int
	if ex.di < len(ex.dec) {
		d = ex.dec[ex.di]
	} else {
		rt := ex.e.s.Check(ex.pc, c)
		if rt == Unsat {
			rf := ex.e.s.Check(ex.pc, nc)
			if rf == Unsat {
				panic(pathEnd{"infeasible"})
			}
			d = 2 // forced false
		} else if ex.e.s.Check(ex.pc, nc) == Unsat {
			d = 3 // forced true
		} else {
			d = 1
			alt := append(append([]int{}, ex.dec...), 0)
			ex.e.work = append(ex.e.work, workItem{alt})
		}
		ex.dec = append(ex.dec, d)
	}
	ex.di++
	switch d {
	case 0:
		ex.assume(nc)
		return false
	case 1:
		ex.assume(c)
		return true
	case 2:
		ex.implied[nc] = true
		ex.noteEq(nc)
		return false
	default:
		ex.implied[c] = true
		ex.noteEq(c)
		return true
	}
}

// chooseN forks n ways without a condition (nondeterministic outcome of a model).
func (ex *Ex) chooseN(n int) int {
	var d int
	if ex.di < len(ex.dec) {
		d = ex.dec[ex.di] - 10
	} else {
		d = 0
		for i := n - 1; i > 0; i-- {
			ex.e.work = append(ex.e.work, workItem{append(append([]int{}, ex.dec...), 10+i)})
		}
		ex.dec = append(ex.dec, 10)
	}
	ex.di++
	return d
}

func (ex *Ex) valid(c *Term) bool {
	if k := ex.known(c); k >= 0 {
		return k == 1
	}
	if ex.e.s.Check(ex.pc, ex.b.Not(c)) == Unsat {
		ex.implied[c] = true
		return true
	}
	return false
}

// assert discharges a named obligation.
func (ex *Ex) assert(label string, c *Term, detail func() string) bool {
	if k := ex.known(c); k == 1 {
		ex.discharged(label, c)
		return true
	}
	r := ex.e.s.Check(ex.pc, ex.b.Not(c))
	if r == Unknown {
		r = ex.e.s.CheckOther(ex.pc, ex.b.Not(c))
	}
	if r == Unsat {
		ex.discharged(label, c)
		ex.implied[c] = true
		return true
	}
	kind := "refuted"
	if r == Unknown {
		kind = "unknown"
	}
	d := ""
	if detail != nil {
		d = detail()
	} else {
		d = ex.b.Str(c)
	}
	ex.e.fail(Fail{Label: label, Kind: kind, Detail: d, Pos: ex.where(), Model: ex.model(ex.b.Not(c)), Inexact: ex.inexact})
	return false
}
func (ex *Ex) failNow(label, detail string) {
	ex.e.fail(Fail{Label: label, Kind: "refuted", Detail: detail, Pos: ex.where(), Model: ex.model(nil), Inexact: ex.inexact})
}
func (ex *Ex) discharged(label string, c *Term) {
	ex.e.obls = append(ex.e.obls, oblRec{label, append([]int{}, ex.dec[:ex.di]...), c.ID})
}
func (ex *Ex) ok(label string) { ex.discharged(label, ex.b.T) }

func (ex *Ex) model(extra *Term) map[string]string {
	m := map[string]string{}
	if len(ex.inputs) == 0 {
		return m
	}
	var ts []*Term
	for _, n := range ex.inputs {
		ts = append(ts, n.T)
	}
	vs := ex.e.s.Model(ex.pc, extra, ts)
	for i, v := range vs {
		if j := strings.LastIndex(v, " "); j >= 0 {
			v = v[j+1:]
		}
		m[ex.inputs[i].Name] = strings.TrimRight(v, ") ")
	}
	return m
}

func (ex *Ex) fresh(hint string, s Sort) *Term {
	ex.seq++
	return ex.b.Var(fmt.Sprintf("v%d!%s", ex.seq, hint), s)
}
func (ex *Ex) newObj(name string, v Value, t types.Type) *Obj {
	ex.names[name]++
	o := &Obj{Name: fmt.Sprintf("%s#%d", name, ex.names[name]), Val: v, N: len(ex.objs), Typ: t}
	ex.objs = append(ex.objs, o)
	return o
}
func (ex *Ex) ptrTo(o *Obj) PtrV { return PtrV{O: o, Nil: ex.b.F} }

// ---- memory ----------------------------------------------------------------

func (ex *Ex) derefCheck(p PtrV, what string) {
	if p.Nil.isFalse() {
		return
	}
	if ex.choose(p.Nil) {
		ex.throw("nil dereference ("+what+")", nil)
	}
	if p.O == nil {
		ex.cut()
	}
}
func (ex *Ex) throw(kind string, v Value) {
	pos := token.NoPos
	for i := len(ex.stack) - 1; i >= 0; i-- {
		if ex.stack[i].pos.IsValid() {
			pos = ex.stack[i].pos
			break
		}
	}
	panic(goPanic{val: v, kind: kind, pos: pos})
}

func (ex *Ex) getPath(v Value, path []PE) Value {
	for _, p := range path {
		ex.usePoison(v)
		switch x := v.(type) {
		case StructV:
			v = x.F[p.F]
		case *Seq:
			v = ex.seqAt(x, p.Idx)
		default:
			ex.unsupported(fmt.Sprintf("path into %T", v))
		}
	}
	return v
}
func (ex *Ex) setPath(v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	ex.usePoison(v)
	switch x := v.(type) {
	case StructV:
		fs := append([]Value{}, x.F...)
		fs[path[0].F] = ex.setPath(fs[path[0].F], path[1:], nv)
		return StructV{F: fs}
	case *Seq:
		if len(path) == 1 {
			return ex.seqUpdate(x, path[0].Idx, nv)
		}
		return ex.seqUpdate(x, path[0].Idx, ex.setPath(ex.seqAt(x, path[0].Idx), path[1:], nv))
	}
	ex.unsupported(fmt.Sprintf("store path into %T", v))
	return nil
}
func (ex *Ex) load(p PtrV) Value {
	ex.derefCheck(p, "load")
	if ex.monitor != nil {
		ex.monitor.access(ex, p, false)
	}
	v := ex.getPath(p.O.Val, p.Path)
	ex.usePoison(v)
	return v
}
func (ex *Ex) store(p PtrV, v Value) {
	ex.derefCheck(p, "store")
	if ex.monitor != nil {
		ex.monitor.access(ex, p, true)
	}
	p.O.Val = ex.setPath(p.O.Val, p.Path, v)
}
func (ex *Ex) content(s SliceV) *Seq {
	if s.Arr.O == nil {
		return emptySeq
	}
	if s.Len.isConst() && s.Len.Val == 0 {
		return emptySeq
	}
	arr := ex.getPath(s.Arr.O.Val, s.Arr.Path).(*Seq)
	if s.Off.isConst() && s.Off.Val == 0 && ex.seqLen(arr) == s.Len {
		return arr
	}
	return ex.sub(arr, s.Off, s.Len)
}
func (ex *Ex) sliceOf(s *Seq, name string, elem types.Type) SliceV {
	o := ex.newObj(name, s, elem)
	n := ex.seqLen(s)
	return SliceV{Arr: ex.ptrTo(o), Off: ex.b.I(0), Len: n, Cap: n, Nil: ex.b.F}
}

// appendInPlace: appending to a slice that ends before the array's reachable
// elements overwrites those when the capacity suffices.
func (ex *Ex) appendInPlace(s SliceV, add *Seq) (Value, bool) {
	b := ex.b
	if s.Arr.O == nil {
		return nil, false
	}
	arr, ok := ex.getPath(s.Arr.O.Val, s.Arr.Path).(*Seq)
	if !ok {
		return nil, false
	}
	end, top := b.Add(s.Off, s.Len), ex.seqLen(arr)
	if s.Arr.O.Exp != nil {
		top = s.Arr.O.Exp
	}
	n := b.Add(s.Len, ex.seqLen(add))
	if end == top || s.Cap == s.Len || ex.valid(b.SLe(top, end)) || !ex.choose(b.SLe(n, s.Cap)) {
		return nil, false
	}
	ex.sliceStore(s, s.Len, add)
	if s.Arr.O.Exp != nil {
		if e := b.Add(s.Off, n); !ex.valid(b.SLe(e, s.Arr.O.Exp)) {
			s.Arr.O.Exp = nil
		}
	}
	return SliceV{Arr: s.Arr, Off: s.Off, Len: n, Cap: s.Cap, Nil: b.F}, true
}

func (ex *Ex) sliceStore(s SliceV, at *Term, n *Seq) {
	ln := ex.seqLen(n)
	if ln.isConst() && ln.Val == 0 {
		return
	}
	if s.Arr.O == nil {
		ex.cut()
	}
	arr := ex.getPath(s.Arr.O.Val, s.Arr.Path).(*Seq)
	s.Arr.O.Val = ex.setPath(s.Arr.O.Val, s.Arr.Path, ex.seqReplace(arr, ex.b.Add(s.Off, at), n))
}

// bounds panics (as the program would) unless c holds.
func (ex *Ex) bounds(c *Term, what string) {
	if ex.choose(c) {
		return
	}
	ex.throw(what, nil)
}

// ---- functions -------------------------------------------------------------

func (ex *Ex) callFn(fn *ssa.Function, args []Value, bind []Value, site string) Value {
	if len(ex.stack) > 60 {
		ex.unsupported("call depth")
	}
	if fn.Blocks == nil {
		return ex.external(fn, args, site)
	}
	pk := fn.Package()
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Package()
	}
	if pk != nil && !ex.e.inRepo(pk.Pkg.Path()) {
		return ex.external(fn, args, site)
	}
	if h, ok := ex.hooks[fn.String()]; ok {
		if r, done := h(ex, args); done {
			ex.e.Used["contract of "+fn.String()+provedNote(fn.String())] = true
			return r
		}
	}
	if pk == nil || pk.Pkg.Path() != stubPath {
		ex.e.Fns[fn.String()] = true
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, site: site}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bind[i]
	}
	ex.stack = append(ex.stack, fr)
	depth := len(ex.stack)
	var res Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(goPanic)
				if !ok || len(fr.defers) == 0 {
					panic(r)
				}
				// run deferred calls while panicking
				ex.stack = ex.stack[:depth]
				ex.panicking = append(ex.panicking, &gp)
				fr.recovered = false
				ex.runDefers(fr)
				ex.panicking = ex.panicking[:len(ex.panicking)-1]
				if !fr.recovered {
					panic(r)
				}
				if fn.Recover != nil {
					res = ex.run(fr, fn.Recover)
				} else {
					res = ex.zeroResults(fn.Signature)
				}
			}
		}()
		res = ex.run(fr, fn.Blocks[0])
	}()
	ex.stack = ex.stack[:depth-1]
	return res
}
func (ex *Ex) zeroResults(sg *types.Signature) Value {
	switch sg.Results().Len() {
	case 0:
		return nil
	case 1:
		return ex.zero(sg.Results().At(0).Type())
	}
	return ex.zero(sg.Results())
}
func (ex *Ex) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		d()
	}
}

func (ex *Ex) val(fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return ex.constant(v)
	case *ssa.Global:
		return ex.global(v)
	case *ssa.Function:
		return FuncV{Fn: v, Nil: ex.b.F}
	case *ssa.Builtin:
		return v
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (ex *Ex) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return ex.zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return ex.b.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return StrV{ex.bytesSeq(constant.StringVal(c.Value))}
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
			return FloatV{I: ex.b.I(int64(f))}
		}
		return OpqV{Kind: "float", Data: f}
	}
	w, _ := ex.intWidth(t)
	if w == 0 {
		ex.unsupported("constant " + c.String())
	}
	if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
		return ex.b.C(w, uint64(i))
	}
	u, _ := constant.Uint64Val(constant.ToInt(c.Value))
	return ex.b.C(w, u)
}

func (ex *Ex) global(g *ssa.Global) Value {
	if o, ok := ex.globals[g]; ok {
		return ex.ptrTo(o)
	}
	var v Value
	et := g.Type().(*types.Pointer).Elem()
	if g.Pkg != nil && ex.e.inRepo(g.Pkg.Pkg.Path()) {
		v = ex.globalInit(g, et)
	} else {
		v = ex.externalGlobal(g.Pkg.Pkg.Path()+"."+g.Name(), et)
	}
	o := ex.newObj("global:"+g.Pkg.Pkg.Name()+"."+g.Name(), v, et)
	ex.globals[g] = o
	return ex.ptrTo(o)
}

// globalInit evaluates the initialiser of one package-level variable by
// interpreting the instructions of the package's synthetic init that feed it.
func (ex *Ex) globalInit(g *ssa.Global, et types.Type) Value {
	initFn := g.Pkg.Func("init")
	o := ex.newObj("global:"+g.Pkg.Pkg.Name()+"."+g.Name(), ex.zero(et), et)
	ex.globals[g] = o
	// find stores to g in init
	need := map[ssa.Instruction]bool{}
	var want func(v ssa.Value)
	want = func(v ssa.Value) {
		in, ok := v.(ssa.Instruction)
		if !ok || need[in] {
			return
		}
		need[in] = true
		for _, op := range in.Operands(nil) {
			if *op != nil {
				want(*op)
			}
		}
		// effects on this value (map updates, field/element stores)
		if v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.MapUpdate:
					if r.Map == v {
						need[r] = true
						want(r.Key)
						want(r.Value)
					}
				case *ssa.Store:
					if r.Addr == v {
						need[r] = true
						want(r.Val)
					}
				case *ssa.IndexAddr:
					want(r)
				case *ssa.FieldAddr:
					want(r)
				}
			}
		}
	}
	for _, blk := range initFn.Blocks {
		for _, in := range blk.Instrs {
			if st, ok := in.(*ssa.Store); ok && rootGlobal(st.Addr) == g {
				need[st] = true
				want(st.Addr)
				want(st.Val)
			}
		}
	}
	fr := &Frame{fn: initFn, env: map[ssa.Value]Value{}}
	ex.stack = append(ex.stack, fr)
	for _, blk := range initFn.Blocks {
		for _, in := range blk.Instrs {
			if need[in] {
				ex.step(fr, in)
			}
		}
	}
	// init functions of the package that touch the variable
	for _, n := range sortedMembers(g.Pkg) {
		if f, ok := g.Pkg.Members[n].(*ssa.Function); ok && strings.HasPrefix(n, "init#") && touches(f, g, map[*ssa.Function]bool{}) {
			ex.callFn(f, nil, nil, "init")
		}
	}
	ex.stack = ex.stack[:len(ex.stack)-1]
	delete(ex.globals, g)
	return o.Val
}
func touches(f *ssa.Function, g *ssa.Global, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, blk := range f.Blocks {
		for _, in := range blk.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == g {
					return true
				}
				if c, ok := (*op).(*ssa.Function); ok && c.Pkg == g.Pkg && touches(c, g, seen) {
					return true
				}
			}
		}
	}
	return false
}
func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func (ex *Ex) run(fr *Frame, blk *ssa.BasicBlock) Value {
	for {
		next, res, done := ex.block(fr, blk)
		if done {
			return res
		}
		fr.prev = blk
		blk = ex.enter(fr, blk, next)
	}
}

// block executes the instructions of blk (phis were set by enter).
func (ex *Ex) block(fr *Frame, blk *ssa.BasicBlock) (*ssa.BasicBlock, Value, bool) {
	for _, in := range blk.Instrs {
		ex.steps++
		if ex.steps > 400000 {
			ex.unsupported("step budget")
		}
		if p := in.Pos(); p.IsValid() {
			fr.pos = p
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return blk.Succs[0], nil, false
		case *ssa.If:
			ex.usePoison(ex.val(fr, in.Cond))
			c := ex.val(fr, in.Cond).(*Term)
			r := ex.branch(fr, blk, c)
			if r {
				return blk.Succs[0], nil, false
			}
			return blk.Succs[1], nil, false
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
				return nil, nil, true
			case 1:
				return nil, ex.val(fr, in.Results[0]), true
			}
			var tv TupleV
			for _, r := range in.Results {
				tv = append(tv, ex.val(fr, r))
			}
			return nil, tv, true
		case *ssa.Panic:
			ex.throw("panic", ex.val(fr, in.X))
		default:
			ex.step(fr, in)
		}
	}
	panic("block without terminator")
}

func (ex *Ex) callCommon(fr *Frame, c *ssa.CallCommon, in ssa.Instruction) (func() Value, string) {
	site := fmt.Sprintf("%s/%s.%d", fr.site, shortFn(fr.fn), instrIndex(in))
	var args []Value
	if c.IsInvoke() {
		recv := ex.val(fr, c.Value)
		for _, a := range c.Args {
			args = append(args, ex.val(fr, a))
		}
		return func() Value { return ex.invoke(recv, c.Method, args, site) }, site
	}
	fv := ex.val(fr, c.Value)
	for _, a := range c.Args {
		args = append(args, ex.val(fr, a))
	}
	if bi, ok := fv.(*ssa.Builtin); ok {
		return func() Value { return ex.builtin(fr, bi, args, c, site) }, site
	}
	return func() Value { return ex.callValue(fv, args, site) }, site
}
func (ex *Ex) callValue(fv Value, args []Value, site string) Value {
	f, ok := fv.(FuncV)
	if !ok {
		ex.unsupported(fmt.Sprintf("call of %T", fv))
	}
	if f.Nil != nil && !f.Nil.isFalse() {
		if ex.choose(f.Nil) {
			ex.throw("call of nil function", nil)
		}
	}
	if f.Mod != nil {
		return f.Mod(ex, args)
	}
	if f.Fn == nil {
		ex.unsupported("call of unknown function value")
	}
	return ex.callFn(f.Fn, args, f.Bind, site)
}
func shortFn(f *ssa.Function) string { return f.Name() }
func instrIndex(in ssa.Instruction) int {
	n := 0
	for _, b := range in.Parent().Blocks {
		for _, i := range b.Instrs {
			if i == in {
				return n
			}
			n++
		}
	}
	return -1
}

func (ex *Ex) invoke(recv Value, m *types.Func, args []Value, site string) Value {
	iv, ok := recv.(IfaceV)
	if !ok {
		if o, ok := recv.(OpqV); ok {
			return ex.opaqueMethod(o, m.Name(), args, site)
		}
		ex.unsupported(fmt.Sprintf("invoke %s on %T", m.Name(), recv))
	}
	if !iv.Nil.isFalse() && ex.choose(iv.Nil) {
		ex.throw("method call on nil interface", nil)
	}
	if o, ok := iv.V.(OpqV); ok {
		return ex.opaqueMethod(o, m.Name(), args, site)
	}
	if iv.T != nil {
		fn := ex.e.W.Prog.LookupMethod(iv.T, m.Pkg(), m.Name())
		if fn == nil {
			ex.unsupported("method " + m.Name() + " not found")
		}
		return ex.callFn(fn, append([]Value{iv.V}, args...), nil, site)
	}
	return ex.opaqueInvoke(iv, m, args, site)
}

func (ex *Ex) site(fr *Frame, in ssa.Instruction) string {
	return fmt.Sprintf("%s/%s.%d", fr.site, shortFn(fr.fn), instrIndex(in))
}

func (ex *Ex) step(fr *Frame, in ssa.Instruction) {
	b := ex.b
	switch in := in.(type) {
	case *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Extract, *ssa.MakeClosure:
	case *ssa.Store:
		ex.usePoison(ex.val(fr, in.Addr))
	case *ssa.Call:
		ex.usePoison(ex.val(fr, in.Call.Value))
	case *ssa.Defer:
		ex.usePoison(ex.val(fr, in.Call.Value))
	case *ssa.Go:
		ex.usePoison(ex.val(fr, in.Call.Value))
	default:
		for _, op := range in.Operands(nil) {
			if *op != nil {
				ex.usePoison(ex.val(fr, *op))
			}
		}
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		fr.env[in] = ex.ptrTo(ex.newObj(ex.site(fr, in), ex.zero(et), et))
	case *ssa.BinOp:
		fr.env[in] = ex.binop(in.Op, ex.val(fr, in.X), ex.val(fr, in.Y), in.X.Type(), in.Y.Type())
	case *ssa.UnOp:
		x := ex.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			fr.env[in] = ex.load(x.(PtrV))
		case token.NOT:
			fr.env[in] = b.Not(x.(*Term))
		case token.SUB:
			switch x := x.(type) {
			case *Term:
				fr.env[in] = b.Neg(x)
			case FloatV:
				fr.env[in] = FloatV{I: b.Neg(x.I)}
			default:
				ex.unsupported("unary minus")
			}
		case token.XOR:
			fr.env[in] = b.BNot(x.(*Term))
		case token.ARROW:
			fr.env[in] = ex.chanRecv(x, in.CommaOk, in.Type())
		default:
			ex.unsupported("unop " + in.Op.String())
		}
	case *ssa.Call:
		f, _ := ex.callCommon(fr, &in.Call, in)
		fr.env[in] = f()
	case *ssa.Defer:
		f, _ := ex.callCommon(fr, &in.Call, in)
		fr.defers = append(fr.defers, func() { f() })
	case *ssa.RunDefers:
		ex.runDefers(fr)
	case *ssa.Go:
		f, site := ex.callCommon(fr, &in.Call, in)
		ex.spawn(f, site)
	case *ssa.ChangeType:
		fr.env[in] = ex.val(fr, in.X)
	case *ssa.ChangeInterface:
		fr.env[in] = ex.val(fr, in.X)
	case *ssa.Convert:
		fr.env[in] = ex.convert(ex.val(fr, in.X), in.X.Type(), in.Type(), ex.site(fr, in))
	case *ssa.MakeInterface:
		fr.env[in] = ex.makeIface(ex.val(fr, in.X), in.X.Type())
	case *ssa.Extract:
		fr.env[in] = ex.val(fr, in.Tuple).(TupleV)[in.Index]
	case *ssa.Field:
		x := ex.val(fr, in.X)
		sv, ok := x.(StructV)
		if !ok {
			ex.unsupported(fmt.Sprintf("field of %T", x))
		}
		fr.env[in] = sv.F[in.Field]
	case *ssa.FieldAddr:
		p := ex.val(fr, in.X).(PtrV)
		ex.derefCheck(p, "field "+fieldName(in.X.Type(), in.Field))
		fr.env[in] = PtrV{O: p.O, Path: append(append([]PE{}, p.Path...), PE{F: in.Field}), Nil: b.F}
	case *ssa.Index:
		x := ex.val(fr, in.X)
		idx := ex.toInt(ex.val(fr, in.Index), in.Index.Type())
		var s *Seq
		switch x := x.(type) {
		case StrV:
			s = x.S
		case *Seq:
			s = x
		default:
			ex.unsupported("index")
		}
		ex.bounds(b.ULt(idx, ex.seqLen(s)), "index out of range")
		fr.env[in] = ex.seqAt(s, idx)
	case *ssa.IndexAddr:
		x := ex.val(fr, in.X)
		idx := ex.toInt(ex.val(fr, in.Index), in.Index.Type())
		switch x := x.(type) {
		case SliceV:
			ex.bounds(b.ULt(idx, x.Len), "index out of range")
			if x.Arr.O == nil {
				ex.cut()
			}
			fr.env[in] = PtrV{O: x.Arr.O, Path: append(append([]PE{}, x.Arr.Path...), PE{Idx: b.Add(x.Off, idx)}), Nil: b.F}
		case PtrV:
			ex.derefCheck(x, "index")
			arr := ex.getPath(x.O.Val, x.Path).(*Seq)
			ex.bounds(b.ULt(idx, ex.seqLen(arr)), "index out of range")
			fr.env[in] = PtrV{O: x.O, Path: append(append([]PE{}, x.Path...), PE{Idx: idx}), Nil: b.F}
		default:
			ex.unsupported("indexaddr")
		}
	case *ssa.Lookup:
		x := ex.val(fr, in.X)
		switch x := x.(type) {
		case StrV:
			idx := ex.toInt(ex.val(fr, in.Index), in.Index.Type())
			ex.bounds(b.ULt(idx, ex.seqLen(x.S)), "index out of range")
			fr.env[in] = ex.seqAt(x.S, idx)
		case MapRef:
			fr.env[in] = ex.mapLookup(x, ex.val(fr, in.Index), in)
		default:
			ex.unsupported("lookup")
		}
	case *ssa.MapUpdate:
		m := ex.val(fr, in.Map).(MapRef)
		ex.mapStore(m, ex.val(fr, in.Key), ex.val(fr, in.Value))
	case *ssa.MakeMap:
		o := ex.newObj(ex.site(fr, in), MapV{}, in.Type())
		fr.env[in] = MapRef{O: o, Nil: b.F}
	case *ssa.MakeChan:
		fr.env[in] = OpqV{Kind: "chan"}
	case *ssa.MakeClosure:
		var bind []Value
		for _, x := range in.Bindings {
			bind = append(bind, ex.val(fr, x))
		}
		fr.env[in] = FuncV{Fn: in.Fn.(*ssa.Function), Bind: bind, Nil: b.F}
	case *ssa.MakeSlice:
		n := ex.toInt(ex.val(fr, in.Len), in.Len.Type())
		c := ex.toInt(ex.val(fr, in.Cap), in.Cap.Type())
		ex.bounds(b.And(b.SLe(b.I(0), n), b.SLe(n, c), b.SLe(c, b.I(1<<47))), "makeslice: len or cap out of range")
		et := in.Type().Underlying().(*types.Slice).Elem()
		o := ex.newObj(ex.site(fr, in), ex.mkSeq(Seg{Rep: ex.zero(et), N: c}), et)
		if n != c {
			o.Exp = n
		}
		fr.env[in] = SliceV{Arr: ex.ptrTo(o), Off: b.I(0), Len: n, Cap: c, Nil: b.F}
	case *ssa.Slice:
		fr.env[in] = ex.slice(fr, in)
	case *ssa.Store:
		ex.store(ex.val(fr, in.Addr).(PtrV), ex.val(fr, in.Val))
	case *ssa.TypeAssert:
		fr.env[in] = ex.typeAssert(ex.val(fr, in.X), in)
	case *ssa.Range:
		fr.env[in] = ex.rangeStart(ex.val(fr, in.X), in)
	case *ssa.Next:
		fr.env[in] = ex.rangeNext(fr, in)
	case *ssa.Send:
		ex.chanSend(ex.val(fr, in.Chan), ex.val(fr, in.X))
	case *ssa.Select:
		fr.env[in] = ex.doSelect(fr, in)
	default:
		ex.unsupported(fmt.Sprintf("instruction %T", in))
	}
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.Field(i).Name()
	}
	return "?"
}

func (ex *Ex) toInt(v Value, t types.Type) *Term {
	x := v.(*Term)
	w, signed := ex.intWidth(t)
	if w == 64 {
		return x
	}
	if signed {
		return ex.b.Sext(64, x)
	}
	return ex.b.Zext(64, x)
}

func (ex *Ex) slice(fr *Frame, in *ssa.Slice) Value {
	b := ex.b
	x := ex.val(fr, in.X)
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = ex.toInt(ex.val(fr, in.Low), in.Low.Type())
	} else {
		lo = b.I(0)
	}
	if in.High != nil {
		hi = ex.toInt(ex.val(fr, in.High), in.High.Type())
	}
	if in.Max != nil {
		mx = ex.toInt(ex.val(fr, in.Max), in.Max.Type())
	}
	switch x := x.(type) {
	case StrV:
		n := ex.seqLen(x.S)
		if hi == nil {
			hi = n
		}
		ex.bounds(b.And(b.SLe(b.I(0), lo), b.SLe(lo, hi), b.SLe(hi, n)), "slice bounds out of range")
		return StrV{ex.sub(x.S, lo, b.Sub(hi, lo))}
	case SliceV:
		if hi == nil {
			hi = x.Len
		}
		cap := x.Cap
		if mx != nil {
			ex.bounds(b.And(b.SLe(hi, mx), b.SLe(mx, cap)), "slice bounds out of range")
			cap = mx
		}
		if hi == x.Len {
			ex.bounds(b.And(b.SLe(b.I(0), lo), b.SLe(lo, hi)), "slice bounds out of range")
		} else {
			ex.bounds(b.And(b.SLe(b.I(0), lo), b.SLe(lo, hi), b.SLe(hi, cap)), "slice bounds out of range")
			if x.Arr.O != nil && x.Arr.O.Exp != nil && !ex.valid(b.SLe(hi, x.Len)) {
				x.Arr.O.Exp = nil
				if x.Arr.O.Grown {
					ex.unsupported("slicing past the end after an append")
				}
			}
		}
		return SliceV{Arr: x.Arr, Off: b.Add(x.Off, lo), Len: b.Sub(hi, lo), Cap: b.Sub(cap, lo), Nil: x.Nil}
	case PtrV:
		ex.derefCheck(x, "slice of array")
		arr := ex.getPath(x.O.Val, x.Path).(*Seq)
		n := ex.seqLen(arr)
		if hi == nil {
			hi = n
		}
		ex.bounds(b.And(b.SLe(b.I(0), lo), b.SLe(lo, hi), b.SLe(hi, n)), "slice bounds out of range")
		if a, ok := in.X.(*ssa.Alloc); ok && a.Comment == "makeslice" && x.O.Exp == nil && hi != n {
			x.O.Exp = hi // make with a constant capacity
		}
		return SliceV{Arr: x, Off: lo, Len: b.Sub(hi, lo), Cap: b.Sub(n, lo), Nil: b.F}
	}
	ex.unsupported(fmt.Sprintf("slice of %T", x))
	return nil
}

func (ex *Ex) binop(op token.Token, x, y Value, tx, ty types.Type) Value {
	b := ex.b
	switch op {
	case token.EQL:
		return ex.goEq(x, y)
	case token.NEQ:
		return b.Not(ex.goEq(x, y))
	}
	switch a := x.(type) {
	case *Term:
		c, ok := y.(*Term)
		if !ok {
			ex.unsupported("binop operands")
		}
		w, signed := ex.intWidth(tx)
		if op == token.SHL || op == token.SHR {
			return ex.shift(op, a, c, w, signed, ty)
		}
		switch op {
		case token.ADD:
			return b.Add(a, c)
		case token.SUB:
			return b.Sub(a, c)
		case token.MUL:
			return b.Mul(a, c)
		case token.QUO, token.REM:
			ex.bounds(b.Ne(c, b.C(w, 0)), "integer divide by zero")
			if signed && !(c.isConst() && c.sval() > 0 && ex.valid(b.SLe(b.C(w, 0), a))) {
				if op == token.QUO {
					return b.SDiv(a, c)
				}
				return b.SRem(a, c)
			}
			if op == token.QUO {
				return b.UDiv(a, c)
			}
			return b.URem(a, c)
		case token.AND:
			if a.S == BoolS {
				return b.And(a, c)
			}
			return b.BAnd(a, c)
		case token.OR:
			if a.S == BoolS {
				return b.Or(a, c)
			}
			return b.BOr(a, c)
		case token.XOR:
			return b.BXor(a, c)
		case token.AND_NOT:
			return b.BAnd(a, b.BNot(c))
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				a, c = c, a
			}
			strict := op == token.LSS || op == token.GTR
			switch {
			case signed && strict:
				return b.SLt(a, c)
			case signed:
				return b.SLe(a, c)
			case strict:
				return b.ULt(a, c)
			default:
				return b.ULe(a, c)
			}
		}
	case StrV:
		c := y.(StrV)
		switch op {
		case token.ADD:
			return StrV{ex.cat(a.S, c.S)}
		}
		return ex.strCmp(op, a, c)
	case FloatV:
		c, ok := y.(FloatV)
		if !ok {
			ex.unsupported("float op")
		}
		switch op {
		case token.LSS:
			return b.SLt(a.I, c.I)
		case token.LEQ:
			return b.SLe(a.I, c.I)
		case token.GTR:
			return b.SLt(c.I, a.I)
		case token.GEQ:
			return b.SLe(c.I, a.I)
		case token.ADD:
			return FloatV{I: b.Add(a.I, c.I)}
		case token.SUB:
			return FloatV{I: b.Sub(a.I, c.I)}
		case token.MUL:
			return FloatV{I: b.Mul(a.I, c.I)}
		}
	}
	ex.unsupported(fmt.Sprintf("binop %s on %T", op, x))
	return nil
}

func (ex *Ex) shift(op token.Token, a, c *Term, w int, signed bool, ty types.Type) Value {
	b := ex.b
	cw, cs := ex.intWidth(ty)
	if cs {
		ex.bounds(b.SLe(b.C(cw, 0), c), "negative shift amount")
	}
	if c.isConst() {
		n := c.Val
		if op == token.SHL {
			if n >= uint64(w) {
				return b.C(w, 0)
			}
			return b.Shl(a, b.C(w, n))
		}
		if signed {
			if n >= uint64(w) {
				n = uint64(w - 1)
			}
			return b.AShr(a, b.C(w, n))
		}
		if n >= uint64(w) {
			return b.C(w, 0)
		}
		return b.LShr(a, b.C(w, n))
	}
	big := b.ULe(b.C(cw, uint64(w)), c)
	var cc *Term
	if cw > w {
		cc = b.Extract(w-1, 0, c)
	} else {
		cc = b.Zext(w, c)
	}
	if op == token.SHL {
		return b.Ite(big, b.C(w, 0), b.Shl(a, cc))
	}
	if signed {
		return b.Ite(big, b.AShr(a, b.C(w, uint64(w-1))), b.AShr(a, cc))
	}
	return b.Ite(big, b.C(w, 0), b.LShr(a, cc))
}

// goEq is Go's == as a term.
func (ex *Ex) goEq(x, y Value) *Term {
	b := ex.b
	switch a := x.(type) {
	case *Term:
		return b.Eq(a, y.(*Term))
	case StrV:
		return ex.strEq(a.S, y.(StrV).S)
	case PtrV:
		c := y.(PtrV)
		if a.O == nil {
			return c.Nil
		}
		if c.O == nil {
			return a.Nil
		}
		if a.O == c.O && len(a.Path) == 0 && len(c.Path) == 0 {
			return b.Eq(a.Nil, c.Nil)
		}
		if a.O != c.O {
			return b.And(a.Nil, c.Nil)
		}
		if len(a.Path) == len(c.Path) {
			r := b.T
			for i := range a.Path {
				if a.Path[i].Idx != nil && c.Path[i].Idx != nil {
					r = b.And(r, b.Eq(a.Path[i].Idx, c.Path[i].Idx))
				} else if a.Path[i].F != c.Path[i].F {
					return b.F
				}
			}
			return r
		}
	case SliceV:
		if c, ok := y.(SliceV); ok && c.Nil.isTrue() {
			return a.Nil
		}
		if a.Nil.isTrue() {
			return y.(SliceV).Nil
		}
	case IfaceV:
		c, ok := y.(IfaceV)
		if !ok {
			ex.unsupported("interface comparison")
		}
		if c.Nil.isTrue() {
			return a.Nil
		}
		if a.Nil.isTrue() {
			return c.Nil
		}
		if a.Id != nil && c.Id != nil {
			return b.And(b.Eq(a.Nil, c.Nil), b.Or(a.Nil, b.Eq(a.Id, c.Id)))
		}
		if a.T != nil && c.T != nil {
			if !types.Identical(a.T, c.T) {
				return b.And(a.Nil, c.Nil)
			}
			return ex.goEq(a.V, c.V)
		}
	case FuncV:
		if c, ok := y.(FuncV); ok && c.Nil != nil && c.Nil.isTrue() {
			return a.Nil
		}
		if a.Nil != nil && a.Nil.isTrue() {
			return y.(FuncV).Nil
		}
	case MapRef:
		if c, ok := y.(MapRef); ok && c.Nil.isTrue() {
			return a.Nil
		}
		if a.Nil.isTrue() {
			return y.(MapRef).Nil
		}
	case StructV:
		c := y.(StructV)
		r := b.T
		for i := range a.F {
			r = b.And(r, ex.goEq(a.F[i], c.F[i]))
		}
		return r
	case *Seq:
		return ex.strEq(a, y.(*Seq))
	case FloatV:
		if c, ok := y.(FloatV); ok {
			return b.Eq(a.I, c.I)
		}
	case OpqV:
		if c, ok := y.(OpqV); ok && a.Kind == "chan" && c.Kind == "chan" {
			return b.F
		}
	}
	ex.unsupported(fmt.Sprintf("== on %T", x))
	return nil
}

// strEq: equality of byte strings as a term (may fork on lengths).
func (ex *Ex) strEq(a, c *Seq) *Term {
	b := ex.b
	if ex.tokens {
		if x, ok := ex.toks(a); ok {
			if y, ok := ex.toks(c); ok {
				return ex.tokEq(x, y)
			}
		}
	}
	if ex.wholeStr {
		if x, y := ex.wholeTerm(a), ex.wholeTerm(c); x != nil && y != nil {
			return b.Eq(x, y)
		}
	}
	na, nc := ex.seqLen(a), ex.seqLen(c)
	if !ex.choose(b.Eq(na, nc)) {
		return b.F
	}
	var n *Term
	if na.isConst() {
		n = na
	} else if nc.isConst() {
		n = nc
	} else {
		n = ex.constVal(na)
	}
	if n != nil && n.sval() <= 64 {
		r := b.T
		for i := int64(0); i < n.sval(); i++ {
			x, ok1 := ex.seqAt(a, b.I(i)).(*Term)
			y, ok2 := ex.seqAt(c, b.I(i)).(*Term)
			if !ok1 || !ok2 {
				ex.unsupported("array equality")
			}
			r = b.And(r, b.Eq(x, y))
		}
		return r
	}
	return b.Eq(ex.seqTerm(a), ex.seqTerm(c))
}

// wholeTerm: the sequence is all of a string term.
func (ex *Ex) wholeTerm(s *Seq) *Term {
	if len(s.Segs) == 1 && s.Segs[0].B != nil {
		g := s.Segs[0]
		if sb, ok := g.B.(StrBase); ok && g.From.isConst() && g.From.Val == 0 && g.N == ex.slen(sb.T) {
			return sb.T
		}
	}
	return nil
}
func (ex *Ex) strCmp(op token.Token, a, c StrV) Value {
	ex.unsupported("string ordering")
	return nil
}

func (ex *Ex) convert(v Value, from, to types.Type, site string) Value {
	b := ex.b
	fw, fs := ex.intWidth(from)
	tw, _ := ex.intWidth(to)
	if fw > 0 && tw > 0 {
		x := v.(*Term)
		if tw == fw {
			return x
		}
		if tw < fw {
			return b.Extract(tw-1, 0, x)
		}
		if fs {
			return b.Sext(tw, x)
		}
		return b.Zext(tw, x)
	}
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	if fb != nil && tb != nil && fw > 0 && tb.Info()&types.IsFloat != 0 {
		x := v.(*Term)
		if fs {
			return FloatV{I: b.Sext(64, x)}
		}
		return FloatV{I: b.Zext(64, x)}
	}
	if fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 {
		if tb.Info()&types.IsFloat != 0 {
			return v
		}
		if f, ok := v.(FloatV); ok {
			if tw == 64 {
				return f.I
			}
			in := b.And(b.SLe(b.I(0), f.I), b.SLt(f.I, b.I(1<<uint(tw))))
			if ex.choose(in) {
				return b.Extract(tw-1, 0, f.I)
			}
			return ex.fresh("fconv", BV(tw)) // out of range: implementation-defined
		}
	}
	// string <-> []byte
	if s, ok := v.(StrV); ok {
		if _, ok := to.Underlying().(*types.Slice); ok {
			return ex.sliceOf(s.S, site, types.Typ[types.Uint8])
		}
		return s
	}
	if s, ok := v.(SliceV); ok {
		if tb != nil && tb.Info()&types.IsString != 0 {
			return StrV{ex.content(s)}
		}
		return s
	}
	if fw > 0 && tb != nil && tb.Info()&types.IsString != 0 {
		x := ex.toInt(v, from)
		if ex.choose(b.ULt(x, b.I(0x80))) {
			return StrV{elems(b.Extract(7, 0, x))}
		}
		ex.unsupported("string(rune)")
	}
	if _, ok := v.(PtrV); ok {
		return v
	}
	ex.unsupported("convert " + from.String() + " -> " + to.String())
	return nil
}

func (ex *Ex) makeIface(v Value, t types.Type) Value {
	if iv, ok := v.(IfaceV); ok {
		return iv
	}
	return IfaceV{Nil: ex.b.F, T: t, V: v}
}

func (ex *Ex) typeAssert(v Value, in *ssa.TypeAssert) Value {
	iv, ok := v.(IfaceV)
	if !ok {
		ex.unsupported("type assert")
	}
	okT := ex.b.F
	var res Value
	if !iv.Nil.isFalse() && ex.choose(iv.Nil) {
		okT = ex.b.F
	} else if iv.T != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if types.Implements(iv.T, it) {
				okT, res = ex.b.T, iv
			}
		} else if types.Identical(iv.T, in.AssertedType) {
			okT, res = ex.b.T, iv.V
		}
	} else {
		return ex.opaqueAssert(iv, in)
	}
	if in.CommaOk {
		if res == nil {
			res = ex.zero(in.AssertedType)
		}
		return TupleV{res, okT}
	}
	if okT.isFalse() {
		ex.throw("interface conversion", nil)
	}
	return res
}

func (ex *Ex) builtin(fr *Frame, bi *ssa.Builtin, args []Value, c *ssa.CallCommon, site string) Value {
	b := ex.b
	for _, a := range args {
		ex.usePoison(a)
	}
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case StrV:
			return ex.seqLen(x.S)
		case SliceV:
			return x.Len
		case *Seq:
			return ex.seqLen(x)
		case MapRef:
			return ex.mapLen(x)
		}
	case "cap":
		switch x := args[0].(type) {
		case SliceV:
			return x.Cap
		}
	case "append":
		s := args[0].(SliceV)
		var add *Seq
		switch y := args[1].(type) {
		case SliceV:
			add = ex.content(y)
		case StrV:
			add = y.S
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if l := ex.seqLen(add); l.isConst() && l.Val == 0 {
			return s
		}
		if r, ok := ex.appendInPlace(s, add); ok {
			return r
		}
		if o := s.Arr.O; o != nil && (o.Exp != nil || o.Loose) {
			if o.Grown {
				ex.unsupported("appended twice after the same element, which may share memory")
			}
			o.Grown = true
		}
		n := ex.cat(ex.content(s), add)
		r := ex.sliceOf(n, site, et)
		r.Arr.O.Loose = true
		return r
	case "copy":
		d := args[0].(SliceV)
		var src *Seq
		switch y := args[1].(type) {
		case SliceV:
			src = ex.content(y)
		case StrV:
			src = y.S
		}
		sl := ex.seqLen(src)
		n := d.Len
		if sl != n {
			if ex.choose(b.SLt(sl, n)) {
				n = sl
			} else {
				src = ex.sub(src, b.I(0), n)
			}
		}
		ex.sliceStore(d, b.I(0), src)
		return n
	case "delete":
		ex.mapDelete(args[0].(MapRef), args[1])
		return nil
	case "recover":
		if len(ex.panicking) > 0 {
			p := ex.panicking[len(ex.panicking)-1]
			// the frame whose defers are running is marked recovered
			for i := len(ex.stack) - 2; i >= 0; i-- {
				ex.stack[i].recovered = true
				break
			}
			_ = p
			return IfaceV{Nil: b.F, Id: ex.fresh("panicval", BV(32)), V: p.val}
		}
		return ex.nilIface()
	case "print", "println":
		return nil
	case "close":
		return nil
	case "min", "max":
		x, y := args[0].(*Term), args[1].(*Term)
		_, signed := ex.intWidth(c.Args[0].Type())
		lt := b.ULt(x, y)
		if signed {
			lt = b.SLt(x, y)
		}
		if bi.Name() == "min" {
			return b.Ite(lt, x, y)
		}
		return b.Ite(lt, y, x)
	case "ssa:wrapnilchk":
		p := args[0].(PtrV)
		ex.derefCheck(p, "method value on nil pointer")
		return p
	}
	ex.unsupported("builtin " + bi.Name())
	return nil
}

// ---- structural equality (proof-level) --------------------------------------

func (ex *Ex) pow10(n int) uint64 {
	r := uint64(1)
	for i := 0; i < n; i++ {
		r *= 10
	}
	return r
}
func (ex *Ex) decScale(a, c DecV) (*Term, *Term) {
	x, y := a.Num, c.Num
	if a.Exp > c.Exp {
		x = ex.b.Mul(x, ex.b.C(64, ex.pow10(a.Exp-c.Exp)))
	}
	if c.Exp > a.Exp {
		y = ex.b.Mul(y, ex.b.C(64, ex.pow10(c.Exp-a.Exp)))
	}
	return x, y
}

// eq proves value equality with prove (valid or assert). It may fork.
func (ex *Ex) eqv(a, c Value, path string, prove func(path string, t *Term) bool) bool {
	b := ex.b
	ex.usePoison(a)
	ex.usePoison(c)
	switch x := a.(type) {
	case nil:
		return c == nil
	case *Term:
		y, ok := c.(*Term)
		if !ok || x.S != y.S {
			return ex.mismatch(path, a, c, prove)
		}
		return prove(path, b.Eq(x, y))
	case StrV:
		y, ok := c.(StrV)
		if !ok {
			return ex.mismatch(path, a, c, prove)
		}
		return ex.eqSeq(x.S, y.S, path, prove)
	case *Seq:
		y, ok := c.(*Seq)
		if !ok {
			return ex.mismatch(path, a, c, prove)
		}
		return ex.eqSeq(x, y, path, prove)
	case SliceV:
		y, ok := c.(SliceV)
		if !ok {
			return ex.mismatch(path, a, c, prove)
		}
		return ex.eqSeq(ex.content(x), ex.content(y), path, prove)
	case StructV:
		y, ok := c.(StructV)
		if !ok || len(x.F) != len(y.F) {
			return ex.mismatch(path, a, c, prove)
		}
		r := true
		for i := range x.F {
			if !ex.eqv(x.F[i], y.F[i], fmt.Sprintf("%s.%d", path, i), prove) {
				r = false
			}
		}
		return r
	case DecV:
		y, ok := c.(DecV)
		if !ok {
			return ex.mismatch(path, a, c, prove)
		}
		p, q := ex.decScale(x, y)
		return prove(path, b.Eq(p, q))
	case TimeV:
		y, ok := c.(TimeV)
		if !ok {
			return ex.mismatch(path, a, c, prove)
		}
		return prove(path, b.Eq(x.Sec, y.Sec))
	case PtrV:
		y, ok := c.(PtrV)
		if !ok {
			return ex.mismatch(path, a, c, prove)
		}
		if !prove(path+".nil", b.Eq(x.Nil, y.Nil)) {
			return false
		}
		if x.Nil.isTrue() || y.Nil.isTrue() || x.O == y.O && samePath(x.Path, y.Path) || ex.known(x.Nil) == 1 || ex.known(y.Nil) == 1 {
			return true
		}
		if x.O == nil || y.O == nil {
			return true // only reachable when nil
		}
		if ex.known(x.Nil) != 0 && ex.choose(x.Nil) {
			return true
		}
		return ex.eqv(ex.getPath(x.O.Val, x.Path), ex.getPath(y.O.Val, y.Path), path+".*", prove)
	case IfaceV:
		y, ok := c.(IfaceV)
		if !ok {
			return ex.mismatch(path, a, c, prove)
		}
		if x.T != nil && y.T != nil && x.Nil.isFalse() && y.Nil.isFalse() {
			if !types.Identical(x.T, y.T) {
				return ex.mismatch(path, a, c, prove)
			}
			return ex.eqv(x.V, y.V, path, prove)
		}
		if x.Id != nil && y.Id != nil {
			return prove(path, b.And(b.Eq(x.Nil, y.Nil), b.Or(x.Nil, b.Eq(x.Id, y.Id))))
		}
		return prove(path, b.And(x.Nil, y.Nil))
	case FloatV:
		if y, ok := c.(FloatV); ok {
			return prove(path, b.Eq(x.I, y.I))
		}
	case BufV:
		if y, ok := c.(BufV); ok {
			return ex.eqSeq(x.S, y.S, path, prove)
		}
	case RdrV:
		if y, ok := c.(RdrV); ok {
			return ex.eqSeq(x.S, y.S, path, prove) && prove(path+".pos", b.Eq(x.Pos, y.Pos))
		}
	case FuncV:
		if y, ok := c.(FuncV); ok && x.Fn == y.Fn && x.Fn != nil {
			return true
		}
		if y, ok := c.(FuncV); ok && x.Id != nil && y.Id != nil {
			return prove(path, b.Eq(x.Id, y.Id))
		}
		if y, ok := c.(FuncV); ok && x.Nil != nil && y.Nil != nil && x.Nil.isTrue() {
			return prove(path, y.Nil)
		}
	case MapRef:
		if y, ok := c.(MapRef); ok && x.O == y.O {
			return true
		}
	case OpqV:
		if y, ok := c.(OpqV); ok && x.Kind == y.Kind {
			tx, ok1 := x.Data.(*Term)
			ty, ok2 := y.Data.(*Term)
			if ok1 && ok2 {
				return prove(path, b.Eq(tx, ty))
			}
			if x.Data == nil && y.Data == nil {
				return true
			}
			bx, ok1 := x.Data.(bigV)
			by, ok2 := y.Data.(bigV)
			if ok1 && ok2 {
				return ex.eqSeq(bx.S, by.S, path, prove)
			}
		}
	}
	return ex.mismatch(path, a, c, prove)
}
func samePath(a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func (ex *Ex) mismatch(path string, a, c Value, prove func(string, *Term) bool) bool {
	return prove(fmt.Sprintf("%s: shapes differ: %s vs %s", path, ex.vstr(a), ex.vstr(c)), ex.b.F)
}

func (ex *Ex) eqSeq(a, c *Seq, path string, prove func(string, *Term) bool) bool {
	b := ex.b
	sa, sc := append([]Seg{}, a.Segs...), append([]Seg{}, c.Segs...)
	isEmpty := func(g Seg) bool {
		n := ex.segLen(g)
		if n.isConst() {
			return n.Val == 0
		}
		if g.kind() == "F" && ex.valid(b.Eq(g.From, g.To)) {
			return true
		}
		return ex.valid(b.Eq(n, b.I(0)))
	}
	cutSeg := func(g Seg, n *Term) Seg { // drop the first n of W/R
		if g.B != nil {
			return Seg{B: g.B, From: b.Add(g.From, n), N: b.Sub(g.N, n)}
		}
		return Seg{Rep: g.Rep, N: b.Sub(g.N, n)}
	}
	first := func(g Seg) Value {
		switch g.kind() {
		case "E":
			return g.Elems[0]
		case "W":
			return g.B.At(ex, g.From)
		}
		return g.Rep
	}
	drop1 := func(s []Seg) []Seg {
		g := s[0]
		switch g.kind() {
		case "E":
			if len(g.Elems) == 1 {
				return s[1:]
			}
			return append([]Seg{{Elems: g.Elems[1:]}}, s[1:]...)
		}
		return append([]Seg{cutSeg(g, b.I(1))}, s[1:]...)
	}
	expansions := 0
	for iter := 0; ; iter++ {
		if iter > 3000 {
			ex.unsupported("sequence comparison too long")
		}
		for len(sa) > 0 && isEmpty(sa[0]) {
			sa = sa[1:]
		}
		for len(sc) > 0 && isEmpty(sc[0]) {
			sc = sc[1:]
		}
		if len(sa) == 0 && len(sc) == 0 {
			return true
		}
		if len(sa) == 0 || len(sc) == 0 {
			rest := append(append([]Seg{}, sa...), sc...)
			if g := rest[0]; g.kind() == "F" && expansions < 3 && ex.valid(b.Eq(g.To, b.Add(g.From, b.I(1)))) {
				expansions++
				e := g.Fl.Expand(ex, g.From)
				r := append(append([]Seg{}, e.Segs...), rest[1:]...)
				if len(sa) > 0 {
					sa = r
				} else {
					sc = r
				}
				continue
			}
			return prove(fmt.Sprintf("%s: extra content %s", path, ex.seqStr(&Seq{rest})), b.Eq(ex.seqLen(&Seq{rest}), b.I(0)))
		}
		ga, gc := sa[0], sc[0]
		ka, kc := ga.kind(), gc.kind()
		switch {
		case ka == "F" && kc == "F" && ga.Fl.Key() == gc.Fl.Key() && ex.valid(b.Eq(ga.From, gc.From)):
			if ga.To == gc.To || ex.valid(b.Eq(ga.To, gc.To)) {
				sa, sc = sa[1:], sc[1:]
				continue
			}
			if ex.choose(b.SLe(ga.To, gc.To)) {
				sa = sa[1:]
				sc = append([]Seg{{Fl: gc.Fl, From: ga.To, To: gc.To}}, sc[1:]...)
			} else {
				sc = sc[1:]
				sa = append([]Seg{{Fl: ga.Fl, From: gc.To, To: ga.To}}, sa[1:]...)
			}
			continue
		case ka == "F" || kc == "F":
			expansions++
			if expansions > 3 {
				return prove(path+": flattened list does not match "+ex.seqStr(&Seq{sa})+" / "+ex.seqStr(&Seq{sc}), b.F)
			}
			exp := func(s []Seg) []Seg {
				g := s[0]
				if !ex.choose(b.SLt(g.From, g.To)) {
					return s[1:]
				}
				e := g.Fl.Expand(ex, g.From)
				r := append([]Seg{}, e.Segs...)
				r = append(r, Seg{Fl: g.Fl, From: b.Add(g.From, b.I(1)), To: g.To})
				return append(r, s[1:]...)
			}
			// expand the one that is F (prefer the spec side)
			if kc == "F" {
				sc = exp(sc)
			} else {
				sa = exp(sa)
			}
			continue
		case ka == "W" && kc == "W":
			same := ga.B.Key() == gc.B.Key()
			if !same {
				x, ok1 := ga.B.(StrBase)
				y, ok2 := gc.B.(StrBase)
				same = ok1 && ok2 && ex.valid(b.Eq(x.T, y.T))
			}
			if same && ex.valid(b.Eq(ga.From, gc.From)) {
				if ga.N == gc.N || ex.valid(b.Eq(ga.N, gc.N)) {
					sa, sc = sa[1:], sc[1:]
					continue
				}
				if len(sa) == 1 && len(sc) == 1 {
					return prove(fmt.Sprintf("%s: lengths differ: %s vs %s", path, b.Str(ga.N), b.Str(gc.N)), b.Eq(ga.N, gc.N))
				}
				if ex.choose(b.SLe(ga.N, gc.N)) {
					sa = sa[1:]
					sc = append([]Seg{cutSeg(gc, ga.N)}, sc[1:]...)
				} else {
					sc = sc[1:]
					sa = append([]Seg{cutSeg(ga, gc.N)}, sa[1:]...)
				}
				continue
			}
			na, nc := ex.constVal(ga.N), ex.constVal(gc.N)
			if na != nil && na.Val <= 64 || nc != nil && nc.Val <= 64 {
				if !ex.choose(b.SLt(b.I(0), ga.N)) || !ex.choose(b.SLt(b.I(0), gc.N)) {
					continue
				}
				if !ex.eqv(first(ga), first(gc), path+"[]", prove) {
					return false
				}
				sa, sc = drop1(sa), drop1(sc)
				continue
			}
			if ga.N == gc.N || ex.valid(b.Eq(ga.N, gc.N)) {
				if _, ok := ga.B.(StrBase); ok {
					if _, ok := gc.B.(StrBase); ok {
						if !prove(path, b.Eq(ex.seqTerm(&Seq{[]Seg{ga}}), ex.seqTerm(&Seq{[]Seg{gc}}))) {
							return false
						}
						sa, sc = sa[1:], sc[1:]
						continue
					}
				}
				// element lists: compare at an arbitrary index
				if !ex.choose(b.SLt(b.I(0), ga.N)) {
					sa, sc = sa[1:], sc[1:]
					continue
				}
				j := ex.fresh("j", BV(64))
				ex.assume(b.And(b.SLe(b.I(0), j), b.SLt(j, ga.N)))
				if !ex.eqv(ga.B.At(ex, b.Add(ga.From, j)), gc.B.At(ex, b.Add(gc.From, j)), path+"[j]", prove) {
					return false
				}
				sa, sc = sa[1:], sc[1:]
				continue
			}
			return prove(fmt.Sprintf("%s: %s vs %s", path, ex.seqStr(&Seq{sa}), ex.seqStr(&Seq{sc})), b.F)
		case ka == "R" && kc == "R":
			if !ex.eqv(ga.Rep, gc.Rep, path, prove) {
				return false
			}
			if ga.N == gc.N || ex.valid(b.Eq(ga.N, gc.N)) {
				sa, sc = sa[1:], sc[1:]
				continue
			}
			if ex.choose(b.SLe(ga.N, gc.N)) {
				sa = sa[1:]
				sc = append([]Seg{cutSeg(gc, ga.N)}, sc[1:]...)
			} else {
				sc = sc[1:]
				sa = append([]Seg{cutSeg(ga, gc.N)}, sa[1:]...)
			}
			continue
		default:
			// element by element
			if ka != "E" && !ex.choose(b.SLt(b.I(0), ga.N)) {
				sa = sa[1:]
				continue
			}
			if kc != "E" && !ex.choose(b.SLt(b.I(0), gc.N)) {
				sc = sc[1:]
				continue
			}
			if ka != "E" && kc != "E" {
				return prove(fmt.Sprintf("%s: %s vs %s", path, ex.seqStr(&Seq{sa}), ex.seqStr(&Seq{sc})), b.F)
			}
			if !ex.eqv(first(ga), first(gc), path+"[]", prove) {
				return false
			}
			sa, sc = drop1(sa), drop1(sc)
		}
	}
}

func (ex *Ex) assertEq(label string, got, want Value) bool {
	n := len(ex.e.Fails)
	return ex.eqv(got, want, label, func(path string, t *Term) bool {
		if len(ex.e.Fails) > n {
			return false
		}
		return ex.assert(label, t, func() string {
			return fmt.Sprintf("%s: cannot establish %s", path, ex.b.Str(t))
		})
	})
}
func (ex *Ex) provEq(a, c Value) bool {
	return ex.eqv(a, c, "", func(_ string, t *Term) bool { return ex.valid(t) })
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func provedNote(fn string) string {
	if strings.Contains(fn, "MultipartFile") {
		return " (proved under C18)"
	}
	return " (proved under its own roots)"
}
