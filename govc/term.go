package main

// Terms: hash-consed SMT terms over Bool, bit vectors and uninterpreted sorts.
// All machine integers are exact-width bit vectors (two's complement), so Go's
// wrap-around arithmetic is modelled exactly.

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Sort struct {
	Name string // "Bool", "BV", or uninterpreted name
	W    int
}

var BoolS = Sort{"Bool", 0}

func BV(w int) Sort       { return Sort{"BV", w} }
func US(name string) Sort { return Sort{name, 0} }
func (s Sort) smt() string {
	if s.Name == "BV" {
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	}
	return s.Name
}

type Op uint8

const (
	OConst Op = iota // Val
	OVar             // Name
	OApp             // Name, Args
	ONot
	OAnd
	OOr
	OEq
	OIte
	OLin // Val + sum Coef[i]*Args[i]
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // Hi, Lo
	OZext
	OSext
	OULt
	OULe
	OSLt
	OSLe
)

type Term struct {
	ID   int
	Op   Op
	S    Sort
	Val  uint64
	Name string
	Args []*Term
	Coef []uint64
	Hi   int
	Lo   int
}

// TermBank interns terms; one bank per worker (not safe for concurrent use).
type TermBank struct {
	tab  map[string]*Term
	all  []*Term
	ufs  map[string][]Sort // UF name -> arg sorts + result
	T, F *Term
}

func NewBank() *TermBank {
	b := &TermBank{tab: map[string]*Term{}, ufs: map[string][]Sort{}}
	b.T = b.mk(&Term{Op: OConst, S: BoolS, Val: 1})
	b.F = b.mk(&Term{Op: OConst, S: BoolS, Val: 0})
	return b
}

func (b *TermBank) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('A' + t.Op))
	sb.WriteString(t.S.Name)
	sb.WriteString(strconv.Itoa(t.S.W))
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatUint(t.Val, 36))
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	for i, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
		if t.Coef != nil {
			sb.WriteByte('*')
			sb.WriteString(strconv.FormatUint(t.Coef[i], 36))
		}
	}
	if t.Op == OExtract {
		fmt.Fprintf(&sb, ":%d:%d", t.Hi, t.Lo)
	}
	k := sb.String()
	if o, ok := b.tab[k]; ok {
		return o
	}
	t.ID = len(b.all)
	b.all = append(b.all, t)
	b.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}
func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<uint(64-w)) >> uint(64-w)
}
func (t *Term) isConst() bool { return t.Op == OConst }
func (t *Term) isTrue() bool  { return t.Op == OConst && t.S == BoolS && t.Val == 1 }
func (t *Term) isFalse() bool { return t.Op == OConst && t.S == BoolS && t.Val == 0 }
func (t *Term) sval() int64   { return sx(t.Val, t.S.W) }

func (b *TermBank) C(w int, v uint64) *Term {
	return b.mk(&Term{Op: OConst, S: BV(w), Val: v & mask(w)})
}
func (b *TermBank) I(v int64) *Term { return b.C(64, uint64(v)) }
func (b *TermBank) Bool(v bool) *Term {
	if v {
		return b.T
	}
	return b.F
}
func (b *TermBank) Var(name string, s Sort) *Term {
	return b.mk(&Term{Op: OVar, S: s, Name: name})
}
func (b *TermBank) App(name string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return b.Var(name, s)
	}
	if _, ok := b.ufs[name]; !ok {
		var ss []Sort
		for _, a := range args {
			ss = append(ss, a.S)
		}
		b.ufs[name] = append(ss, s)
	} else {
		sg := b.ufs[name]
		if len(sg) != len(args)+1 || sg[len(args)] != s {
			panic("UF signature mismatch " + name)
		}
		for i, a := range args {
			if sg[i] != a.S {
				panic(fmt.Sprintf("UF arg mismatch %s: %v vs %v", name, sg[i], a.S))
			}
		}
	}
	return b.mk(&Term{Op: OApp, S: s, Name: name, Args: args})
}

func (b *TermBank) Not(a *Term) *Term {
	switch {
	case a.isTrue():
		return b.F
	case a.isFalse():
		return b.T
	case a.Op == ONot:
		return a.Args[0]
	case a.Op == OSLt:
		return b.SLe(a.Args[1], a.Args[0])
	case a.Op == OSLe:
		return b.SLt(a.Args[1], a.Args[0])
	case a.Op == OULt:
		return b.ULe(a.Args[1], a.Args[0])
	case a.Op == OULe:
		return b.ULt(a.Args[1], a.Args[0])
	}
	return b.mk(&Term{Op: ONot, S: BoolS, Args: []*Term{a}})
}

func (b *TermBank) nary(op Op, args []*Term, unit, zero *Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit || seen[a.ID] {
			return true
		}
		if a == zero {
			return false
		}
		if a.Op == op {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[b.Not(a).ID] {
			return false
		}
		seen[a.ID] = true
		out = append(out, a)
		return true
	}
	for _, a := range args {
		if !add(a) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return b.mk(&Term{Op: op, S: BoolS, Args: out})
}
func (b *TermBank) And(args ...*Term) *Term  { return b.nary(OAnd, args, b.T, b.F) }
func (b *TermBank) Or(args ...*Term) *Term   { return b.nary(OOr, args, b.F, b.T) }
func (b *TermBank) Implies(x, y *Term) *Term { return b.Or(b.Not(x), y) }

func (b *TermBank) Eq(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if x.S != y.S {
		panic(fmt.Sprintf("Eq sorts %v %v: %s = %s", x.S, y.S, b.Str(x), b.Str(y)))
	}
	if x.isConst() && y.isConst() {
		return b.Bool(x.Val == y.Val)
	}
	if x.S == BoolS {
		if x.isConst() {
			x, y = y, x
		}
		if y.isTrue() {
			return x
		}
		if y.isFalse() {
			return b.Not(x)
		}
		if x == b.Not(y) {
			return b.F
		}
	}
	if x.S.Name == "BV" {
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			switch x.Op {
			case OZext:
				iw := x.Args[0].S.W
				if y.Val&^mask(iw) != 0 {
					return b.F
				}
				return b.Eq(x.Args[0], b.C(iw, y.Val))
			case OConcat:
				lo := x.Args[1].S.W
				return b.And(b.Eq(x.Args[0], b.C(x.Args[0].S.W, y.Val>>uint(lo))), b.Eq(x.Args[1], b.C(lo, y.Val)))
			case OIte:
				if x.Args[1].isConst() && x.Args[2].isConst() {
					e1, e2 := x.Args[1].Val == y.Val, x.Args[2].Val == y.Val
					switch {
					case e1 && e2:
						return b.T
					case e1:
						return x.Args[0]
					case e2:
						return b.Not(x.Args[0])
					default:
						return b.F
					}
				}
			case OLin:
				if len(x.Args) == 1 && x.Coef[0] == 1 {
					return b.Eq(x.Args[0], b.C(x.S.W, y.Val-x.Val))
				}
				if len(x.Args) == 1 && x.Coef[0] == mask(x.S.W) {
					return b.Eq(x.Args[0], b.C(x.S.W, x.Val-y.Val))
				}
			}
		} else {
			if x.Op == OLin || y.Op == OLin {
				d := b.Sub(x, y)
				if d.isConst() {
					return b.Bool(d.Val == 0)
				}
				if d.Op != OLin {
					return b.Eq(d, b.C(d.S.W, 0))
				}
			}
			if x.Op == OZext && y.Op == OZext && x.Args[0].S == y.Args[0].S {
				return b.Eq(x.Args[0], y.Args[0])
			}
			if x.Op == OConcat && y.Op == OConcat && x.Args[1].S == y.Args[1].S {
				return b.And(b.Eq(x.Args[0], y.Args[0]), b.Eq(x.Args[1], y.Args[1]))
			}
		}
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(&Term{Op: OEq, S: BoolS, Args: []*Term{x, y}})
}
func (b *TermBank) Ne(x, y *Term) *Term { return b.Not(b.Eq(x, y)) }

func (b *TermBank) Ite(c, x, y *Term) *Term {
	if c.isTrue() || x == y {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x.S == BoolS {
		return b.And(b.Implies(c, x), b.Or(c, y))
	}
	if c.Op == ONot {
		return b.Ite(c.Args[0], y, x)
	}
	return b.mk(&Term{Op: OIte, S: x.S, Args: []*Term{c, x, y}})
}

// linear arithmetic normal form
func (b *TermBank) linParts(t *Term) ([]*Term, []uint64, uint64) {
	switch t.Op {
	case OConst:
		return nil, nil, t.Val
	case OLin:
		return t.Args, t.Coef, t.Val
	}
	return []*Term{t}, []uint64{1}, 0
}
func (b *TermBank) mkLin(w int, m map[*Term]uint64, c uint64) *Term {
	var as []*Term
	for t, k := range m {
		if k&mask(w) != 0 {
			as = append(as, t)
		}
	}
	c &= mask(w)
	if len(as) == 0 {
		return b.C(w, c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
	if len(as) == 1 && c == 0 && m[as[0]]&mask(w) == 1 {
		return as[0]
	}
	cs := make([]uint64, len(as))
	for i, a := range as {
		cs[i] = m[a] & mask(w)
	}
	return b.mk(&Term{Op: OLin, S: BV(w), Val: c, Args: as, Coef: cs})
}
func (b *TermBank) lincomb(x *Term, kx uint64, y *Term, ky uint64) *Term {
	w := x.S.W
	m := map[*Term]uint64{}
	ax, cx, vx := b.linParts(x)
	for i, a := range ax {
		m[a] += cx[i] * kx
	}
	ay, cy, vy := b.linParts(y)
	for i, a := range ay {
		m[a] += cy[i] * ky
	}
	return b.mkLin(w, m, vx*kx+vy*ky)
}
func (b *TermBank) Add(x, y *Term) *Term { return b.lincomb(x, 1, y, 1) }
func (b *TermBank) Sub(x, y *Term) *Term { return b.lincomb(x, 1, y, ^uint64(0)) }
func (b *TermBank) Neg(x *Term) *Term    { return b.lincomb(b.C(x.S.W, 0), 1, x, ^uint64(0)) }
func (b *TermBank) Mul(x, y *Term) *Term {
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		return b.lincomb(x, y.Val, b.C(x.S.W, 0), 0)
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	return b.mk(&Term{Op: OMul, S: x.S, Args: []*Term{x, y}})
}
func (b *TermBank) bin(op Op, x, y *Term) *Term {
	w := x.S.W
	if x.isConst() && y.isConst() {
		a, c := x.Val, y.Val
		switch op {
		case OUDiv:
			if c != 0 {
				return b.C(w, a/c)
			}
		case OURem:
			if c != 0 {
				return b.C(w, a%c)
			}
		case OSDiv:
			if c != 0 && !(x.sval() == -1<<63 && y.sval() == -1) {
				return b.C(w, uint64(x.sval()/y.sval()))
			}
		case OSRem:
			if c != 0 && y.sval() != -1 {
				return b.C(w, uint64(x.sval()%y.sval()))
			}
		case OBAnd:
			return b.C(w, a&c)
		case OBOr:
			return b.C(w, a|c)
		case OBXor:
			return b.C(w, a^c)
		case OShl:
			if c >= uint64(w) {
				return b.C(w, 0)
			}
			return b.C(w, a<<c)
		case OLShr:
			if c >= uint64(w) {
				return b.C(w, 0)
			}
			return b.C(w, a>>c)
		case OAShr:
			if c >= uint64(w) {
				c = uint64(w - 1)
			}
			return b.C(w, uint64(x.sval()>>c))
		}
	}
	switch op {
	case OBAnd, OBOr, OBXor:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			switch {
			case y.Val == 0 && op == OBAnd:
				return y
			case y.Val == 0:
				return x
			case y.Val == mask(w) && op == OBAnd:
				return x
			case y.Val == mask(w) && op == OBOr:
				return y
			}
			if op == OBAnd {
				// contiguous low mask -> zext(extract)
				if y.Val&(y.Val+1) == 0 {
					n := bits.Len64(y.Val)
					return b.Zext(w, b.Extract(n-1, 0, x))
				}
			}
			// distribute over zext/concat so that bytes stay visible
			if x.Op == OZext {
				iw := x.Args[0].S.W
				hi := y.Val >> uint(iw)
				if op == OBAnd {
					return b.Zext(w, b.bin(op, x.Args[0], b.C(iw, y.Val)))
				}
				return b.Concat(b.C(w-iw, hi), b.bin(op, x.Args[0], b.C(iw, y.Val)))
			}
			if x.Op == OConcat {
				lw := x.Args[1].S.W
				return b.Concat(b.bin(op, x.Args[0], b.C(w-lw, y.Val>>uint(lw))), b.bin(op, x.Args[1], b.C(lw, y.Val)))
			}
		}
		if x == y {
			if op == OBXor {
				return b.C(w, 0)
			}
			return x
		}
		if op == OBXor {
			// flatten xor chains
			var as []*Term
			c := uint64(0)
			cnt := map[*Term]int{}
			var fl func(t *Term)
			fl = func(t *Term) {
				if t.Op == OBXor {
					for _, a := range t.Args {
						fl(a)
					}
				} else if t.isConst() {
					c ^= t.Val
				} else {
					cnt[t]++
				}
			}
			fl(x)
			fl(y)
			for t, n := range cnt {
				if n%2 == 1 {
					as = append(as, t)
				}
			}
			sort.Slice(as, func(i, j int) bool { return as[i].ID < as[j].ID })
			if c != 0 {
				as = append(as, b.C(w, c))
			}
			if len(as) == 0 {
				return b.C(w, 0)
			}
			if len(as) == 1 {
				return as[0]
			}
			return b.mk(&Term{Op: OBXor, S: BV(w), Args: as})
		}
		// or of disjoint concat-able pieces: (hi << k) | zext(lo)
		if op == OBOr {
			if r := b.mergeOr(x, y); r != nil {
				return r
			}
			if r := b.mergeOr(y, x); r != nil {
				return r
			}
		}
		if x.ID > y.ID {
			x, y = y, x
		}
	case OShl:
		if y.isConst() {
			if y.Val == 0 {
				return x
			}
			if y.Val >= uint64(w) {
				return b.C(w, 0)
			}
			return b.Concat(b.Extract(w-1-int(y.Val), 0, x), b.C(int(y.Val), 0))
		}
	case OLShr:
		if y.isConst() {
			if y.Val == 0 {
				return x
			}
			if y.Val >= uint64(w) {
				return b.C(w, 0)
			}
			return b.Zext(w, b.Extract(w-1, int(y.Val), x))
		}
	case OUDiv:
		if y.isConst() && y.Val != 0 && y.Val&(y.Val-1) == 0 {
			return b.bin(OLShr, x, b.C(w, uint64(bits.TrailingZeros64(y.Val))))
		}
	case OURem:
		if y.isConst() && y.Val != 0 && y.Val&(y.Val-1) == 0 {
			return b.bin(OBAnd, x, b.C(w, y.Val-1))
		}
	}
	return b.mk(&Term{Op: op, S: x.S, Args: []*Term{x, y}})
}

// lowZero: number of low bits known zero; width of significant bits
func (b *TermBank) lowZero(t *Term) int {
	switch t.Op {
	case OConst:
		if t.Val == 0 {
			return t.S.W
		}
		return bits.TrailingZeros64(t.Val)
	case OConcat:
		z := b.lowZero(t.Args[1])
		if z == t.Args[1].S.W {
			return z + b.lowZero(t.Args[0])
		}
		return z
	case OZext:
		return b.lowZero(t.Args[0])
	}
	return 0
}
func (b *TermBank) sigBits(t *Term) int {
	switch t.Op {
	case OConst:
		return bits.Len64(t.Val)
	case OZext:
		return b.sigBits(t.Args[0])
	case OConcat:
		h := b.sigBits(t.Args[0])
		if h == 0 {
			return b.sigBits(t.Args[1])
		}
		return h + t.Args[1].S.W
	}
	return t.S.W
}
func (b *TermBank) mergeOr(hi, lo *Term) *Term {
	z, s := b.lowZero(hi), b.sigBits(lo)
	if s > 0 && z >= s && z < hi.S.W {
		return b.Concat(b.Extract(hi.S.W-1, s, hi), b.Extract(s-1, 0, lo))
	}
	return nil
}

func (b *TermBank) UDiv(x, y *Term) *Term { return b.bin(OUDiv, x, y) }
func (b *TermBank) URem(x, y *Term) *Term { return b.bin(OURem, x, y) }
func (b *TermBank) SDiv(x, y *Term) *Term { return b.bin(OSDiv, x, y) }
func (b *TermBank) SRem(x, y *Term) *Term { return b.bin(OSRem, x, y) }
func (b *TermBank) BAnd(x, y *Term) *Term { return b.bin(OBAnd, x, y) }
func (b *TermBank) BOr(x, y *Term) *Term  { return b.bin(OBOr, x, y) }
func (b *TermBank) BXor(x, y *Term) *Term { return b.bin(OBXor, x, y) }
func (b *TermBank) Shl(x, y *Term) *Term  { return b.bin(OShl, x, y) }
func (b *TermBank) LShr(x, y *Term) *Term { return b.bin(OLShr, x, y) }
func (b *TermBank) AShr(x, y *Term) *Term { return b.bin(OAShr, x, y) }
func (b *TermBank) BNot(x *Term) *Term {
	if x.isConst() {
		return b.C(x.S.W, ^x.Val)
	}
	if x.Op == OBNot {
		return x.Args[0]
	}
	return b.mk(&Term{Op: OBNot, S: x.S, Args: []*Term{x}})
}

func (b *TermBank) Concat(hi, lo *Term) *Term {
	w := hi.S.W + lo.S.W
	if hi.isConst() && lo.isConst() {
		return b.C(w, hi.Val<<uint(lo.S.W)|lo.Val)
	}
	if hi.isConst() && hi.Val == 0 {
		return b.Zext(w, lo)
	}
	if hi.Op == OZext {
		return b.Zext(w, b.Concat(hi.Args[0], lo))
	}
	// right-assoc merge of adjacent extracts
	if hi.Op == OExtract && lo.Op == OExtract && hi.Args[0] == lo.Args[0] && hi.Lo == lo.Hi+1 {
		return b.Extract(hi.Hi, lo.Lo, hi.Args[0])
	}
	if lo.Op == OConcat {
		// keep left-assoc: (hi . a) . b
		return b.Concat(b.Concat(hi, lo.Args[0]), lo.Args[1])
	}
	if hi.Op == OConcat && lo.Op == OExtract && hi.Args[1].Op == OExtract && hi.Args[1].Args[0] == lo.Args[0] && hi.Args[1].Lo == lo.Hi+1 {
		return b.Concat(hi.Args[0], b.Extract(hi.Args[1].Hi, lo.Lo, lo.Args[0]))
	}
	if hi.Op == OConcat && lo.isConst() && hi.Args[1].isConst() {
		return b.Concat(hi.Args[0], b.Concat(hi.Args[1], lo))
	}
	return b.mk(&Term{Op: OConcat, S: BV(w), Args: []*Term{hi, lo}})
}
func (b *TermBank) Extract(hi, lo int, x *Term) *Term {
	w := x.S.W
	if lo == 0 && hi == w-1 {
		return x
	}
	n := hi - lo + 1
	switch x.Op {
	case OConst:
		return b.C(n, x.Val>>uint(lo))
	case OExtract:
		return b.Extract(hi+x.Lo, lo+x.Lo, x.Args[0])
	case OZext:
		iw := x.Args[0].S.W
		if lo >= iw {
			return b.C(n, 0)
		}
		if hi < iw {
			return b.Extract(hi, lo, x.Args[0])
		}
		return b.Zext(n, b.Extract(iw-1, lo, x.Args[0]))
	case OSext:
		iw := x.Args[0].S.W
		if hi < iw {
			return b.Extract(hi, lo, x.Args[0])
		}
	case OConcat:
		lw := x.Args[1].S.W
		if hi < lw {
			return b.Extract(hi, lo, x.Args[1])
		}
		if lo >= lw {
			return b.Extract(hi-lw, lo-lw, x.Args[0])
		}
		return b.Concat(b.Extract(hi-lw, 0, x.Args[0]), b.Extract(lw-1, lo, x.Args[1]))
	case OBAnd, OBOr, OBXor:
		r := b.Extract(hi, lo, x.Args[0])
		for _, a := range x.Args[1:] {
			r = b.bin(x.Op, r, b.Extract(hi, lo, a))
		}
		return r
	case OBNot:
		return b.BNot(b.Extract(hi, lo, x.Args[0]))
	case OIte:
		if x.Args[1].isConst() || x.Args[2].isConst() {
			return b.Ite(x.Args[0], b.Extract(hi, lo, x.Args[1]), b.Extract(hi, lo, x.Args[2]))
		}
	case OLin:
		if lo == 0 {
			m := map[*Term]uint64{}
			for i, a := range x.Args {
				m[b.Extract(hi, 0, a)] += x.Coef[i]
			}
			// constants may appear after extraction
			c := x.Val
			for t, k := range m {
				if t.isConst() {
					c += t.Val * k
					delete(m, t)
				}
			}
			r := b.mkLin(n, m, c)
			return r
		}
	}
	return b.mk(&Term{Op: OExtract, S: BV(n), Args: []*Term{x}, Hi: hi, Lo: lo})
}
func (b *TermBank) Zext(w int, x *Term) *Term {
	if x.S.W == w {
		return x
	}
	if x.isConst() {
		return b.C(w, x.Val)
	}
	if x.Op == OZext {
		return b.Zext(w, x.Args[0])
	}
	return b.mk(&Term{Op: OZext, S: BV(w), Args: []*Term{x}})
}
func (b *TermBank) Sext(w int, x *Term) *Term {
	if x.S.W == w {
		return x
	}
	if x.isConst() {
		return b.C(w, uint64(x.sval()))
	}
	if x.Op == OZext && x.Args[0].S.W < x.S.W {
		return b.Zext(w, x.Args[0])
	}
	return b.mk(&Term{Op: OSext, S: BV(w), Args: []*Term{x}})
}

// small unsigned upper bound for quick comparisons
func (b *TermBank) ubound(t *Term) uint64 {
	switch t.Op {
	case OConst:
		return t.Val
	case OZext:
		return b.ubound(t.Args[0])
	case OIte:
		x, y := b.ubound(t.Args[1]), b.ubound(t.Args[2])
		if x > y {
			return x
		}
		return y
	case OLin:
		var s uint64 = t.Val
		if t.Val > mask(t.S.W)>>1 {
			return mask(t.S.W)
		}
		for i, a := range t.Args {
			u := b.ubound(a)
			if t.Coef[i] > 1<<20 || u > 1<<40 {
				return mask(t.S.W)
			}
			s += u * t.Coef[i]
		}
		if s > mask(t.S.W) {
			return mask(t.S.W)
		}
		return s
	}
	return mask(t.S.W)
}
func (b *TermBank) nonneg(t *Term) bool { return b.ubound(t) <= mask(t.S.W)>>1 }

func (b *TermBank) ULt(x, y *Term) *Term {
	if x == y {
		return b.F
	}
	if x.isConst() && y.isConst() {
		return b.Bool(x.Val < y.Val)
	}
	if y.isConst() && y.Val == 0 {
		return b.F
	}
	if y.isConst() && b.ubound(x) < y.Val {
		return b.T
	}
	if x.isConst() && b.ubound(y) <= x.Val {
		return b.F
	}
	return b.mk(&Term{Op: OULt, S: BoolS, Args: []*Term{x, y}})
}
func (b *TermBank) ULe(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if x.isConst() && y.isConst() {
		return b.Bool(x.Val <= y.Val)
	}
	if x.isConst() && x.Val == 0 {
		return b.T
	}
	if y.isConst() && b.ubound(x) <= y.Val {
		return b.T
	}
	if x.isConst() && b.ubound(y) < x.Val {
		return b.F
	}
	return b.mk(&Term{Op: OULe, S: BoolS, Args: []*Term{x, y}})
}
func (b *TermBank) SLt(x, y *Term) *Term {
	if x == y {
		return b.F
	}
	if x.isConst() && y.isConst() {
		return b.Bool(x.sval() < y.sval())
	}
	if y.isConst() && b.nonneg(x) {
		if y.sval() <= 0 {
			return b.F
		}
		if b.ubound(x) < y.Val {
			return b.T
		}
	}
	if x.isConst() && b.nonneg(y) {
		if x.sval() < 0 {
			return b.T
		}
		if b.ubound(y) <= x.Val {
			return b.F
		}
	}
	return b.mk(&Term{Op: OSLt, S: BoolS, Args: []*Term{x, y}})
}
func (b *TermBank) SLe(x, y *Term) *Term {
	if x == y {
		return b.T
	}
	if x.isConst() && y.isConst() {
		return b.Bool(x.sval() <= y.sval())
	}
	if x.isConst() && x.sval() <= 0 && b.nonneg(y) {
		return b.T
	}
	if y.isConst() && b.nonneg(x) {
		if y.sval() < 0 {
			return b.F
		}
		if b.ubound(x) <= y.Val {
			return b.T
		}
	}
	if x.isConst() && b.nonneg(y) && b.ubound(y) < x.Val && x.sval() > 0 {
		return b.F
	}
	return b.mk(&Term{Op: OSLe, S: BoolS, Args: []*Term{x, y}})
}

// subst replaces variables/terms.
func (b *TermBank) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = b.rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}
func (b *TermBank) rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case OApp:
		return b.App(t.Name, t.S, as...)
	case ONot:
		return b.Not(as[0])
	case OAnd:
		return b.And(as...)
	case OOr:
		return b.Or(as...)
	case OEq:
		return b.Eq(as[0], as[1])
	case OIte:
		return b.Ite(as[0], as[1], as[2])
	case OLin:
		r := b.C(t.S.W, t.Val)
		for i, a := range as {
			r = b.lincomb(r, 1, a, t.Coef[i])
		}
		return r
	case OMul:
		return b.Mul(as[0], as[1])
	case OBXor:
		r := as[0]
		for _, a := range as[1:] {
			r = b.BXor(r, a)
		}
		return r
	case OUDiv, OURem, OSDiv, OSRem, OBAnd, OBOr, OShl, OLShr, OAShr:
		return b.bin(t.Op, as[0], as[1])
	case OBNot:
		return b.BNot(as[0])
	case OConcat:
		return b.Concat(as[0], as[1])
	case OExtract:
		return b.Extract(t.Hi, t.Lo, as[0])
	case OZext:
		return b.Zext(t.S.W, as[0])
	case OSext:
		return b.Sext(t.S.W, as[0])
	case OULt:
		return b.ULt(as[0], as[1])
	case OULe:
		return b.ULe(as[0], as[1])
	case OSLt:
		return b.SLt(as[0], as[1])
	case OSLe:
		return b.SLe(as[0], as[1])
	}
	panic("rebuild")
}

func (b *TermBank) contains(t, x *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle"}

func bvlit(w int, v uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

// smtBody prints t with children referenced through ref.
func smtBody(t *Term, ref func(*Term) string) string {
	switch t.Op {
	case OConst:
		if t.S == BoolS {
			if t.Val == 1 {
				return "true"
			}
			return "false"
		}
		return bvlit(t.S.W, t.Val)
	case OVar:
		return "|" + t.Name + "|"
	case OApp:
		var sb strings.Builder
		sb.WriteString("(|" + t.Name + "|")
		for _, a := range t.Args {
			sb.WriteString(" " + ref(a))
		}
		return sb.String() + ")"
	case OLin:
		var parts []string
		for i, a := range t.Args {
			switch t.Coef[i] {
			case 1:
				parts = append(parts, ref(a))
			case mask(t.S.W):
				parts = append(parts, "(bvneg "+ref(a)+")")
			default:
				parts = append(parts, "(bvmul "+bvlit(t.S.W, t.Coef[i])+" "+ref(a)+")")
			}
		}
		if t.Val != 0 {
			parts = append(parts, bvlit(t.S.W, t.Val))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(bvadd " + strings.Join(parts, " ") + ")"
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.Hi, t.Lo, ref(t.Args[0]))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.S.W-t.Args[0].S.W, ref(t.Args[0]))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.S.W-t.Args[0].S.W, ref(t.Args[0]))
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[t.Op])
	for _, a := range t.Args {
		sb.WriteString(" " + ref(a))
	}
	return sb.String() + ")"
}

// Str prints a term for humans.
func (b *TermBank) Str(t *Term) string {
	n := 0
	var rec func(t *Term) string
	rec = func(t *Term) string {
		n++
		if n > 400 {
			return "..."
		}
		if t.Op == OConst && t.S.Name == "BV" {
			return strconv.FormatInt(t.sval(), 10)
		}
		return strings.ReplaceAll(smtBody(t, rec), "|", "")
	}
	return rec(t)
}
