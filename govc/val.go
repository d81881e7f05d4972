package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- values -------------------------------------------------------------
// Values are immutable; mutable memory is Obj.Val.
//   *Term (bool/integers), *Seq (arrays), StrV, SliceV, PtrV, StructV, IfaceV,
//   FuncV, MapRef, TupleV, FloatV, DecV, TimeV, BufV, RdrV, OpqV

type Value interface{}

type Obj struct {
	Name string
	Val  Value
	N    int
	Typ  types.Type
	Born int   // creation index
	Exp  *Term // elements of a made slice that any slice reaches (nil: all)
	// Loose: an append made it, its capacity is not known; Grown: something was
	// appended after its last reachable element (a second such append, or slicing
	// past the end, would meet it)
	Loose, Grown bool
}

type PE struct {
	F   int
	Idx *Term
}

type PtrV struct {
	O    *Obj
	Path []PE
	Nil  *Term
}
type SliceV struct {
	Arr           PtrV
	Off, Len, Cap *Term
	Nil           *Term
}
type StrV struct{ S *Seq }
type StructV struct {
	F []Value
}
type IfaceV struct {
	Nil *Term
	Id  *Term // BV32 identity (errors and opaque interfaces)
	T   types.Type
	V   Value
}
type FuncV struct {
	Fn   *ssa.Function
	Bind []Value
	Nil  *Term
	Id   *Term
	Mod  func(ex *Ex, args []Value) Value
}
type TupleV []Value
type FloatV struct{ I *Term } // an integer-valued float
type DecV struct {
	Num *Term // 64-bit signed
	Exp int
}
type TimeV struct{ Sec, Ns *Term } // Ns: nil means zero
type BufV struct{ S *Seq }
type RdrV struct {
	S   *Seq
	Pos *Term
}
type MapRef struct {
	O   *Obj // Val is MapV
	Nil *Term
}
type MapEnt struct {
	K, V Value
}
type MapV struct {
	// newest first: concrete association list over an optional symbolic base
	Ents []MapEnt
	Del  []Value
	Base *SymMap
}
type OpqV struct {
	Kind string
	Data interface{}
}

// ---- sequences ----------------------------------------------------------

type Base interface {
	At(ex *Ex, i *Term) Value
	Key() string
}

type StrBase struct{ T *Term }

func (s StrBase) At(ex *Ex, i *Term) Value {
	if ex.atHook != nil && ex.atHookT == s.T {
		ex.atHook(i)
	}
	return ex.b.App("at", BV(8), s.T, i)
}
func (s StrBase) Key() string { return fmt.Sprintf("s%d", s.T.ID) }

type Flattener interface {
	Key() string
	Expand(ex *Ex, j *Term) *Seq      // contribution of element j
	Len(ex *Ex, from, to *Term) *Term // length of contributions [from,to)
}

type Seg struct {
	Elems []Value
	B     Base
	From  *Term
	N     *Term
	Rep   Value // Rep repeated N times
	Fl    Flattener
	To    *Term // Flat: [From,To)
}
type Seq struct {
	Segs []Seg
}

func (s Seg) kind() string {
	switch {
	case s.Elems != nil:
		return "E"
	case s.B != nil:
		return "W"
	case s.Fl != nil:
		return "F"
	}
	return "R"
}

var emptySeq = &Seq{}

func (ex *Ex) segLen(s Seg) *Term {
	switch {
	case s.Elems != nil:
		return ex.b.I(int64(len(s.Elems)))
	case s.Fl != nil:
		return s.Fl.Len(ex, s.From, s.To)
	}
	return s.N
}
func (ex *Ex) seqLen(s *Seq) *Term {
	r := ex.b.I(0)
	for _, g := range s.Segs {
		r = ex.b.Add(r, ex.segLen(g))
	}
	return r
}

func (ex *Ex) mkSeq(segs ...Seg) *Seq {
	var out []Seg
	for _, g := range segs {
		switch g.kind() {
		case "E":
			if len(out) > 0 && out[len(out)-1].Elems != nil {
				p := out[len(out)-1].Elems
				ne := make([]Value, 0, len(p)+len(g.Elems))
				ne = append(append(ne, p...), g.Elems...)
				out[len(out)-1] = Seg{Elems: ne}
				continue
			}
			if len(g.Elems) == 0 {
				continue
			}
		case "W":
			if g.N.isConst() && g.N.Val == 0 {
				continue
			}
			if sb, ok := g.B.(StrBase); ok && sb.T.Op == OApp && sb.T.Name == "sub" {
				g = Seg{B: StrBase{sb.T.Args[0]}, From: ex.b.Add(sb.T.Args[1], g.From), N: g.N}
			}
			if len(out) > 0 {
				l := out[len(out)-1]
				if l.B != nil && l.B.Key() == g.B.Key() && ex.b.Add(l.From, l.N) == g.From {
					out[len(out)-1] = Seg{B: l.B, From: l.From, N: ex.b.Add(l.N, g.N)}
					continue
				}
			}
		case "R":
			if g.N.isConst() {
				if g.N.Val == 0 {
					continue
				}
				if g.N.Val <= 4096 {
					es := make([]Value, g.N.Val)
					for i := range es {
						es[i] = g.Rep
					}
					out2 := ex.mkSeq(append(out, Seg{Elems: es})...)
					out = out2.Segs
					continue
				}
			}
		case "F":
			if g.From == g.To {
				continue
			}
			if len(out) > 0 {
				l := out[len(out)-1]
				if l.Fl != nil && l.Fl.Key() == g.Fl.Key() && l.To == g.From {
					out[len(out)-1] = Seg{Fl: l.Fl, From: l.From, To: g.To}
					continue
				}
			}
		}
		out = append(out, g)
	}
	return &Seq{Segs: out}
}
func (ex *Ex) cat(a, b *Seq) *Seq {
	if len(a.Segs) == 0 {
		return b
	}
	if len(b.Segs) == 0 {
		return a
	}
	segs := make([]Seg, 0, len(a.Segs)+len(b.Segs))
	segs = append(append(segs, a.Segs...), b.Segs...)
	return ex.mkSeq(segs...)
}
func elems(vs ...Value) *Seq {
	if len(vs) == 0 {
		return emptySeq
	}
	return &Seq{Segs: []Seg{{Elems: vs}}}
}
func (ex *Ex) bytesSeq(s string) *Seq {
	var vs []Value
	for i := 0; i < len(s); i++ {
		vs = append(vs, ex.b.C(8, uint64(s[i])))
	}
	return elems(vs...)
}
func (ex *Ex) win(b Base, from, n *Term) *Seq { return ex.mkSeq(Seg{B: b, From: from, N: n}) }

// whole string as a sequence
func (ex *Ex) strSeq(t *Term) *Seq {
	n := ex.slen(t)
	return ex.win(StrBase{t}, ex.b.I(0), n)
}
func (ex *Ex) slen(t *Term) *Term {
	if t.Op == OApp && t.Name == "sub" {
		return t.Args[2]
	}
	n := ex.b.App("slen", BV(64), t)
	if !ex.slenSeen[t] {
		ex.slenSeen[t] = true
		ex.assume(ex.b.SLe(ex.b.I(0), n))
		ex.assume(ex.b.SLe(n, ex.b.I(1<<40)))
	}
	return n
}

// concatElems: sequence with all elements explicit, if its shape is concrete
func (s *Seq) concrete() ([]Value, bool) {
	if len(s.Segs) == 0 {
		return nil, true
	}
	if len(s.Segs) == 1 && s.Segs[0].Elems != nil {
		return s.Segs[0].Elems, true
	}
	return nil, false
}

// explode expands small constant-length windows into elements.
func (ex *Ex) explode(s *Seq, max int64) ([]Value, bool) {
	var out []Value
	for _, g := range s.Segs {
		switch g.kind() {
		case "E":
			out = append(out, g.Elems...)
		case "W":
			n := ex.constVal(g.N)
			if n == nil || n.sval() > max {
				return nil, false
			}
			for i := int64(0); i < n.sval(); i++ {
				out = append(out, g.B.At(ex, ex.b.Add(g.From, ex.b.I(i))))
			}
		case "R":
			n := ex.constVal(g.N)
			if n == nil || n.sval() > max {
				return nil, false
			}
			for i := int64(0); i < n.sval(); i++ {
				out = append(out, g.Rep)
			}
		default:
			return nil, false
		}
	}
	return out, true
}

// split cuts s at offset off: returns (head, tail). May fork the path.
func (ex *Ex) split(s *Seq, off *Term) (*Seq, *Seq) {
	b := ex.b
	rem := off
	if rem.isConst() && rem.Val == 0 {
		return emptySeq, s
	}
	for i, g := range s.Segs {
		n := ex.segLen(g)
		if rem == n {
			return &Seq{Segs: s.Segs[:i+1]}, &Seq{Segs: s.Segs[i+1:]}
		}
		if rem.isConst() && rem.Val == 0 {
			return &Seq{Segs: s.Segs[:i]}, &Seq{Segs: s.Segs[i:]}
		}
		d := b.Sub(rem, n)
		if (d.isConst() && d.sval() > 0) || (!d.isConst() && ex.choose(b.SLe(n, rem))) {
			rem = d
			continue
		}
		// strictly inside this segment
		head := append([]Seg{}, s.Segs[:i]...)
		tail := append([]Seg{}, s.Segs[i+1:]...)
		switch g.kind() {
		case "E":
			c := rem
			if !c.isConst() {
				found := false
				for v := 0; v < len(g.Elems); v++ {
					if ex.choose(b.Eq(rem, b.I(int64(v)))) {
						c = b.I(int64(v))
						found = true
						break
					}
				}
				if !found {
					ex.cut()
				}
			}
			k := int(c.sval())
			return ex.mkSeq(append(head, Seg{Elems: g.Elems[:k:k]})...), ex.mkSeq(append([]Seg{{Elems: g.Elems[k:]}}, tail...)...)
		case "W":
			return ex.mkSeq(append(head, Seg{B: g.B, From: g.From, N: rem})...),
				ex.mkSeq(append([]Seg{{B: g.B, From: b.Add(g.From, rem), N: b.Sub(g.N, rem)}}, tail...)...)
		case "R":
			return ex.mkSeq(append(head, Seg{Rep: g.Rep, N: rem})...),
				ex.mkSeq(append([]Seg{{Rep: g.Rep, N: b.Sub(g.N, rem)}}, tail...)...)
		default:
			ex.unsupported("split inside a flattened list")
		}
	}
	return s, emptySeq
}
func (ex *Ex) sub(s *Seq, from, n *Term) *Seq {
	// fast path: single window
	if len(s.Segs) == 1 && s.Segs[0].B != nil {
		g := s.Segs[0]
		return ex.win(g.B, ex.b.Add(g.From, from), n)
	}
	if n.isConst() && n.Val == 0 {
		return emptySeq
	}
	_, t := ex.split(s, from)
	h, _ := ex.split(t, n)
	return h
}
func (ex *Ex) seqAt(s *Seq, idx *Term) Value {
	if len(s.Segs) == 1 {
		g := s.Segs[0]
		switch g.kind() {
		case "W":
			return g.B.At(ex, ex.b.Add(g.From, idx))
		case "R":
			return g.Rep
		case "E":
			if idx.isConst() {
				return g.Elems[idx.Val]
			}
			// symbolic index into explicit elements: ite chain for terms
			if _, ok := g.Elems[0].(*Term); ok {
				r := g.Elems[len(g.Elems)-1].(*Term)
				for i := len(g.Elems) - 2; i >= 0; i-- {
					r = ex.b.Ite(ex.b.Eq(idx, ex.b.I(int64(i))), g.Elems[i].(*Term), r)
				}
				return r
			}
		}
	}
	_, t := ex.split(s, idx)
	if len(t.Segs) == 0 {
		ex.cut()
	}
	g := t.Segs[0]
	// the first segment may be empty on this path
	for {
		n := ex.segLen(g)
		if n.isConst() && n.Val > 0 || ex.choose(ex.b.SLt(ex.b.I(0), n)) {
			break
		}
		t = &Seq{Segs: t.Segs[1:]}
		if len(t.Segs) == 0 {
			ex.cut()
		}
		g = t.Segs[0]
	}
	switch g.kind() {
	case "E":
		return g.Elems[0]
	case "W":
		return g.B.At(ex, g.From)
	case "R":
		return g.Rep
	}
	ex.unsupported("index inside a flattened list")
	return nil
}
func (ex *Ex) seqUpdate(s *Seq, idx *Term, v Value) *Seq {
	return ex.seqReplace(s, idx, elems(v))
}
func (ex *Ex) seqReplace(s *Seq, from *Term, n *Seq) *Seq {
	ln := ex.seqLen(n)
	if ln.isConst() && ln.Val == 0 {
		return s
	}
	h, t := ex.split(s, from)
	_, t2 := ex.split(t, ln)
	return ex.cat(ex.cat(h, n), t2)
}

// seqTerm names a byte sequence as a term of sort Str (for uninterpreted functions).
func (ex *Ex) seqTerm(s *Seq) *Term {
	b := ex.b
	var parts []*Term
	for _, g := range s.Segs {
		switch g.kind() {
		case "W":
			sb, ok := g.B.(StrBase)
			if !ok {
				parts = append(parts, b.App("lwin", US("Str"), b.Var("lb:"+g.B.Key(), US("LB")), g.From, g.N))
				continue
			}
			if g.From.isConst() && g.From.Val == 0 && g.N == ex.slen(sb.T) {
				parts = append(parts, sb.T)
			} else {
				parts = append(parts, b.App("sub", US("Str"), sb.T, g.From, g.N))
			}
		case "E":
			var ts []*Term
			for _, e := range g.Elems {
				t, ok := e.(*Term)
				if !ok {
					ex.unsupported("seqTerm of non-bytes")
				}
				ts = append(ts, t)
			}
			parts = append(parts, b.App(fmt.Sprintf("bytes%d", len(ts)), US("Str"), ts...))
		case "R":
			parts = append(parts, b.App("rep", US("Str"), g.Rep.(*Term), g.N))
		case "F":
			parts = append(parts, b.App("flat:"+g.Fl.Key(), US("Str"), g.From, g.To))
		}
	}
	if len(parts) == 0 {
		return b.Var("empty", US("Str"))
	}
	r := parts[0]
	for _, p := range parts[1:] {
		r = b.App("cat", US("Str"), r, p)
	}
	return r
}

func (ex *Ex) seqStr(s *Seq) string {
	var sb strings.Builder
	for _, g := range s.Segs {
		switch g.kind() {
		case "E":
			sb.WriteString("[")
			for i, e := range g.Elems {
				if i > 0 {
					sb.WriteString(" ")
				}
				sb.WriteString(ex.vstr(e))
			}
			sb.WriteString("]")
		case "W":
			fmt.Fprintf(&sb, "W(%s,%s,+%s)", g.B.Key(), ex.b.Str(g.From), ex.b.Str(g.N))
		case "R":
			fmt.Fprintf(&sb, "R(%s x %s)", ex.vstr(g.Rep), ex.b.Str(g.N))
		case "F":
			fmt.Fprintf(&sb, "F(%s,%s,%s)", g.Fl.Key(), ex.b.Str(g.From), ex.b.Str(g.To))
		}
	}
	return sb.String()
}
func (ex *Ex) vstr(v Value) string {
	switch v := v.(type) {
	case *Term:
		return ex.b.Str(v)
	case *Seq:
		return "arr" + ex.seqStr(v)
	case StrV:
		return "str" + ex.seqStr(v.S)
	case SliceV:
		return "slice(len " + ex.b.Str(v.Len) + ")"
	case PtrV:
		if v.O == nil {
			return "nil"
		}
		return "&" + v.O.Name
	case StructV:
		var p []string
		for _, f := range v.F {
			p = append(p, ex.vstr(f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case IfaceV:
		if v.Nil.isTrue() {
			return "nil"
		}
		return "iface"
	case DecV:
		return fmt.Sprintf("dec(%se%d)", ex.b.Str(v.Num), v.Exp)
	case TimeV:
		return "time(" + ex.b.Str(v.Sec) + ")"
	}
	return fmt.Sprintf("%T", v)
}

// ---- zero values ---------------------------------------------------------

func typeName(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return ""
}

const zeroTimeSec = -62135596800

func (ex *Ex) intWidth(t types.Type) (int, bool) {
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch bt.Kind() {
	case types.Int8, types.Uint8:
		return 8, bt.Kind() == types.Int8
	case types.Int16, types.Uint16:
		return 16, bt.Kind() == types.Int16
	case types.Int32, types.Uint32:
		return 32, bt.Kind() == types.Int32
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func (ex *Ex) nilPtr() PtrV { return PtrV{Nil: ex.b.T} }
func (ex *Ex) nilSlice() SliceV {
	z := ex.b.I(0)
	return SliceV{Arr: ex.nilPtr(), Off: z, Len: z, Cap: z, Nil: ex.b.T}
}
func (ex *Ex) nilIface() IfaceV { return IfaceV{Nil: ex.b.T, Id: ex.b.C(32, 0)} }

func (ex *Ex) zero(t types.Type) Value {
	switch typeName(t) {
	case "time.Time":
		return TimeV{Sec: ex.b.I(zeroTimeSec)}
	case "github.com/shopspring/decimal.Decimal":
		return DecV{Num: ex.b.I(0), Exp: 0}
	case "bytes.Buffer":
		return BufV{S: emptySeq}
	case "sync.Mutex", "sync.RWMutex", "sync.Once", "sync.WaitGroup", "sync.Map":
		return OpqV{Kind: typeName(t)}
	case "sync/atomic.Uint32", "sync/atomic.Int32":
		return ex.b.C(32, 0)
	case "sync/atomic.Uint64", "sync/atomic.Int64":
		return ex.b.C(64, 0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return ex.b.F
		}
		if u.Info()&types.IsString != 0 {
			return StrV{emptySeq}
		}
		if u.Info()&types.IsFloat != 0 {
			return FloatV{I: ex.b.I(0)}
		}
		if w, _ := ex.intWidth(t); w > 0 {
			return ex.b.C(w, 0)
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return ex.nilPtr()
		}
	case *types.Pointer:
		return ex.nilPtr()
	case *types.Slice:
		return ex.nilSlice()
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !ex.e.inRepo(n.Obj().Pkg().Path()) && !opaqueOK(typeName(t)) {
			return OpqV{Kind: typeName(t)}
		}
		fs := make([]Value, u.NumFields())
		for i := range fs {
			fs[i] = ex.zero(u.Field(i).Type())
		}
		return StructV{F: fs}
	case *types.Array:
		if u.Len() <= 4096 {
			vs := make([]Value, u.Len())
			for i := range vs {
				vs[i] = ex.zero(u.Elem())
			}
			return elems(vs...)
		}
	case *types.Interface:
		return ex.nilIface()
	case *types.Signature:
		return FuncV{Nil: ex.b.T}
	case *types.Map:
		return MapRef{Nil: ex.b.T}
	case *types.Chan:
		return OpqV{Kind: "chan"}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, ex.zero(u.At(i).Type()))
		}
		return tv
	}
	ex.unsupported("zero value of " + t.String())
	return nil
}

func opaqueOK(n string) bool {
	return n == "crypto/rsa.PublicKey"
}
