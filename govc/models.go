package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Assumed contracts of functions outside the repository. Each entry is the
// behaviour documented by the library; they are listed in the evidence as
// assumptions whenever a proof relies on them.

type modelFn func(ex *Ex, args []Value, site string) Value

type Event struct {
	Kind string
	V    []Value
}
type Monitor struct {
	acc func(ex *Ex, p PtrV, write bool)
}

func (m *Monitor) access(ex *Ex, p PtrV, write bool) {
	if m.acc != nil {
		m.acc(ex, p, write)
	}
}

// SymMap is an unknown initial map content.
type SymMap struct {
	Name string
	Has  func(ex *Ex, key Value) *Term
	Val  func(ex *Ex, key Value) Value
	Zero Value
	// Range enumerates the content: the values, and their keys
	Range func(ex *Ex) (*SpecList, func(j *Term) Value)
}

type bigV struct{ S *Seq } // natural number: big-endian bytes
type trData struct {
	src Value
	enc bool
}
type gzwData struct{ dst PtrV }

func (ex *Ex) errConst(name string) IfaceV {
	id, ok := ex.e.errIDs[name]
	if !ok {
		id = len(ex.e.errIDs) + 1
		ex.e.errIDs[name] = id
	}
	return IfaceV{Nil: ex.b.F, Id: ex.b.C(32, uint64(id))}
}
// anyErr is an error the environment returns: nothing is known of which.
func (ex *Ex) anyErr(hint string) IfaceV {
	return IfaceV{Nil: ex.b.F, Id: ex.fresh("err:"+hint, BV(32))}
}
func (ex *Ex) nilErr() IfaceV { return ex.nilIface() }

func (ex *Ex) freshStr(hint string) StrV { return StrV{ex.strSeq(ex.fresh(hint, US("Str")))} }

func (ex *Ex) ptrNew(name string, v Value) PtrV { return ex.ptrTo(ex.newObj(name, v, nil)) }

func asSlice(ex *Ex, v Value) SliceV {
	s, ok := v.(SliceV)
	if !ok {
		ex.unsupported(fmt.Sprintf("slice argument is %T", v))
	}
	return s
}
func asTerm(ex *Ex, v Value) *Term {
	s, ok := v.(*Term)
	if !ok {
		ex.unsupported(fmt.Sprintf("integer argument is %T", v))
	}
	return s
}
func asPtr(ex *Ex, v Value) PtrV {
	s, ok := v.(PtrV)
	if !ok {
		ex.unsupported(fmt.Sprintf("pointer argument is %T", v))
	}
	ex.derefCheck(s, "receiver")
	return s
}
func (ex *Ex) deref(v Value) (PtrV, Value) {
	p := asPtr(ex, v)
	x := ex.getPath(p.O.Val, p.Path)
	ex.usePoison(x)
	return p, x
}
func (ex *Ex) set(p PtrV, v Value) { p.O.Val = ex.setPath(p.O.Val, p.Path, v) }

func (ex *Ex) buf(v Value) (PtrV, BufV) {
	p, x := ex.deref(v)
	b, ok := x.(BufV)
	if !ok {
		ex.unsupported(fmt.Sprintf("bytes.Buffer is %T", x))
	}
	return p, b
}
func (ex *Ex) rdr(v Value) (PtrV, RdrV) {
	p, x := ex.deref(v)
	b, ok := x.(RdrV)
	if !ok {
		ex.unsupported(fmt.Sprintf("bytes.Reader is %T", x))
	}
	return p, b
}
func (ex *Ex) rdrLen(r RdrV) *Term {
	n := ex.seqLen(r.S)
	d := ex.b.Sub(n, r.Pos)
	if ex.valid(ex.b.SLe(ex.b.I(0), d)) {
		return d
	}
	if ex.choose(ex.b.SLe(r.Pos, n)) {
		return d
	}
	return ex.b.I(0)
}
func (ex *Ex) byteAt(s *Seq, i *Term) *Term { return ex.seqAt(s, i).(*Term) }

// freshSlice returns bytes as a new slice whose nil-ness is unknown when empty.
func (ex *Ex) freshSlice(s *Seq, name string) SliceV {
	r := ex.sliceOf(s, name, types.Typ[types.Uint8])
	if !(r.Len.isConst() && r.Len.Val > 0) {
		r.Nil = ex.fresh("isnil", BoolS)
		ex.assume(ex.b.Implies(r.Nil, ex.b.Eq(r.Len, ex.b.I(0))))
	}
	return r
}

func (ex *Ex) bigEndian(s *Seq, n int) *Term {
	var r *Term
	for i := 0; i < n; i++ {
		x := ex.byteAt(s, ex.b.I(int64(i)))
		if r == nil {
			r = x
		} else {
			r = ex.b.Concat(r, x)
		}
	}
	return r
}
func (ex *Ex) beBytes(t *Term) *Seq {
	var vs []Value
	for i := t.S.W/8 - 1; i >= 0; i-- {
		vs = append(vs, ex.b.Extract(i*8+7, i*8, t))
	}
	return elems(vs...)
}

// readAll returns the remaining content of a reader value.
func (ex *Ex) readAll(r Value, site string) Value {
	iv, ok := r.(IfaceV)
	if !ok {
		ex.unsupported("ReadAll of " + fmt.Sprintf("%T", r))
	}
	if !iv.Nil.isFalse() && ex.choose(iv.Nil) {
		ex.throw("read from nil reader", nil)
	}
	fail := func(name string) Value {
		return TupleV{ex.freshSlice(ex.strSeq(ex.fresh("partial", US("Str"))), site), ex.errConst(name)}
	}
	if p, ok := iv.V.(PtrV); ok && p.O != nil {
		switch x := ex.getPath(p.O.Val, p.Path).(type) {
		case RdrV:
			n := ex.rdrLen(x)
			s := ex.sub(x.S, x.Pos, n)
			ex.set(p, RdrV{S: x.S, Pos: ex.b.Add(x.Pos, n)})
			return TupleV{ex.freshSlice(s, site), ex.nilErr()}
		case BufV:
			ex.set(p, BufV{S: emptySeq})
			return TupleV{ex.freshSlice(x.S, site), ex.nilErr()}
		case StructV:
			if d, r, ok := gzState(x); ok {
				if ex.choose(d.ok) {
					n := ex.rdrLen(r)
					s := ex.sub(r.S, r.Pos, n)
					ex.set(p, StructV{F: []Value{x.F[0], RdrV{S: r.S, Pos: ex.b.Add(r.Pos, n)}}})
					return TupleV{ex.freshSlice(s, site), ex.nilErr()}
				}
				return fail("gzip")
			}
		case OpqV:
			if td, ok := x.Data.(*trData); ok && x.Kind == "transform" {
				in := ex.readAll(td.src, site).(TupleV)
				src := ex.content(in[0].(SliceV))
				r, ok := ex.gbText(src, td.enc)
				if !ok {
					return fail("gbenc")
				}
				return TupleV{ex.freshSlice(r, site), ex.nilErr()}
			}
			if t, ok := x.Data.(*Term); ok && x.Kind == "reader" {
				return TupleV{ex.freshSlice(ex.strSeq(t), site), ex.nilErr()}
			}
		}
	}
	if o, ok := iv.V.(OpqV); ok && o.Kind == "reader" {
		if h := ex.hooks["readAll"]; h != nil {
			if v, done := h(ex, []Value{iv}); done {
				return v
			}
		}
		t := o.Data.(*Term)
		return TupleV{ex.freshSlice(ex.strSeq(t), site), ex.nilErr()}
	}
	ex.unsupported("ReadAll of an unknown reader")
	return nil
}

// gbText: a whole text through the GB18030 encoder or decoder.
func (ex *Ex) gbText(src *Seq, enc bool) (*Seq, bool) {
	if !enc {
		ex.e.Used["golang.org/x/text GB18030 decoder (total, uninterpreted function of its input)"] = true
		return ex.gbDec(src), true
	}
	ex.e.Used["golang.org/x/text GB18030 encoder (uninterpreted function of its input)"] = true
	if !ex.choose(ex.gbOK(ex.seqTerm(src))) {
		return nil, false
	}
	return ex.gbEnc(src), true
}
func gbConvert(enc, str bool) func(ex *Ex, a []Value, site string) Value {
	return func(ex *Ex, a []Value, site string) Value {
		want := map[bool]string{true: "gbenc", false: "gbdec"}[enc]
		_, v := ex.deref(a[0])
		if o, ok := v.(OpqV); !ok || o.Kind != want {
			ex.unsupported("text encoder")
		}
		if str {
			r, ok := ex.gbText(a[1].(StrV).S, enc)
			if !ok {
				return TupleV{StrV{emptySeq}, ex.errConst("gbenc")}
			}
			return TupleV{StrV{r}, ex.nilErr()}
		}
		r, ok := ex.gbText(ex.content(asSlice(ex, a[1])), enc)
		if !ok {
			return TupleV{ex.nilSlice(), ex.errConst("gbenc")}
		}
		return TupleV{ex.freshSlice(r, site), ex.nilErr()}
	}
}
func (ex *Ex) gbOK(s *Term) *Term {
	if s.Op == OVar && s.Name == "empty" {
		return ex.b.T
	}
	return ex.b.App("gbok", BoolS, s)
}
func (ex *Ex) gbEnc(src *Seq) *Seq {
	if n := ex.seqLen(src); n.isConst() && n.Val == 0 {
		return emptySeq
	}
	t := ex.b.App("gbenc", US("Str"), ex.seqTerm(src))
	s := ex.strSeq(t)
	// a non-empty text has a non-empty encoding and vice versa
	k := fmt.Sprintf("gbenc%d", t.ID)
	if !ex.seen[k] {
		ex.seen[k] = true
		ex.assume(ex.b.Eq(ex.b.Eq(ex.seqLen(s), ex.b.I(0)), ex.b.Eq(ex.seqLen(src), ex.b.I(0))))
	}
	return s
}
func (ex *Ex) gbDec(src *Seq) *Seq {
	if n := ex.seqLen(src); n.isConst() && n.Val == 0 {
		return emptySeq
	}
	st := ex.seqTerm(src)
	if st.Op == OApp && st.Name == "gbenc" && ex.known(ex.gbOK(st.Args[0])) == 1 {
		ex.e.Used["GB18030 decoding inverts encoding on encodable text"] = true
		return ex.strSeq(st.Args[0])
	}
	t := ex.b.App("gbdec", US("Str"), st)
	s := ex.strSeq(t)
	k := fmt.Sprintf("gbdec%d", t.ID)
	if !ex.seen[k] {
		ex.seen[k] = true
		ex.assume(ex.b.Eq(ex.b.Eq(ex.seqLen(s), ex.b.I(0)), ex.b.Eq(ex.seqLen(src), ex.b.I(0))))
	}
	return s
}

// indexByte: position of the first c in s, or -1.
func (ex *Ex) indexByte(s *Seq, c *Term) *Term {
	b := ex.b
	n := ex.seqLen(s)
	if n.isConst() && n.Val == 0 {
		return b.I(-1)
	}
	if vs, ok := s.concrete(); ok && len(vs) <= 32 {
		for i, v := range vs {
			if ex.choose(b.Eq(v.(*Term), c)) {
				return b.I(int64(i))
			}
		}
		return b.I(-1)
	}
	t := b.App("ixb", BV(64), ex.seqTerm(s), c)
	k := fmt.Sprintf("ixb%d", t.ID)
	if !ex.seen[k] {
		ex.seen[k] = true
		ex.assume(b.And(b.SLe(b.I(-1), t), b.SLt(t, n)))
		if len(s.Segs) == 1 && s.Segs[0].B != nil {
			ex.assume(b.Implies(b.SLe(b.I(0), t), b.Eq(ex.byteAt(s, t), c)))
		}
	}
	return t
}

// cutNUL is cut0 without a case split (the length is an opaque term).
func (ex *Ex) cutNUL(s *Seq) *Seq {
	b := ex.b
	if vs, ok := s.concrete(); ok && len(vs) <= 32 {
		return ex.cut0(s)
	}
	n := ex.seqLen(s)
	i := ex.indexByte(s, b.C(8, 0))
	if k := ex.known(b.Eq(i, b.I(-1))); k == 1 {
		return s
	} else if k == 0 {
		return ex.sub(s, b.I(0), i)
	}
	if i.isConst() {
		return ex.sub(s, b.I(0), i)
	}
	l := b.App("cutlen", BV(64), ex.seqTerm(s))
	ex.assume(b.Eq(l, b.Ite(b.Eq(i, b.I(-1)), n, i)))
	return ex.sub(s, b.I(0), l)
}

// bcdText: the decimal digits of BCD bytes without leading zeros, unsplit.
func (ex *Ex) bcdText(s *Seq) *Seq {
	return ex.strSeq(ex.b.App("bcdtext", US("Str"), ex.seqTerm(s)))
}

// cut0 is the text up to the first NUL byte.
func (ex *Ex) cut0(s *Seq) *Seq {
	i := ex.indexByte(s, ex.b.C(8, 0))
	if ex.choose(ex.b.Eq(i, ex.b.I(-1))) {
		return s
	}
	return ex.sub(s, ex.b.I(0), i)
}

func (ex *Ex) isDigit(c *Term) *Term {
	return ex.b.And(ex.b.ULe(ex.b.C(8, '0'), c), ex.b.ULe(c, ex.b.C(8, '9')))
}

// parseDigits is the value of a concrete-length digit string.
func (ex *Ex) parseDigits(vs []Value) *Term {
	b := ex.b
	r := b.I(0)
	p := uint64(1)
	for i := len(vs) - 1; i >= 0; i-- {
		d := b.Zext(64, b.Sub(vs[i].(*Term), b.C(8, '0')))
		r = b.Add(r, b.Mul(d, b.C(64, p)))
		p *= 10
	}
	return r
}

// divmod by a positive constant; exact when t is a linear combination whose
// remainder part is provably in range.
func (ex *Ex) divmod(t *Term, c uint64) (*Term, *Term) {
	b := ex.b
	if t.isConst() {
		return b.C(t.S.W, t.Val/c), b.C(t.S.W, t.Val%c)
	}
	if t.Op == OLin && t.S.W == 64 {
		q, r := b.C(64, t.Val/c), b.C(64, t.Val%c)
		for i, a := range t.Args {
			if t.Coef[i]%c == 0 {
				q = b.Add(q, b.Mul(a, b.C(64, t.Coef[i]/c)))
			} else {
				r = b.Add(r, b.Mul(a, b.C(64, t.Coef[i])))
			}
		}
		if ex.valid(b.ULt(r, b.C(64, c))) && ex.valid(b.ULe(q, b.C(64, (1<<62)/c))) {
			return q, r
		}
	}
	if ex.valid(b.ULt(t, b.C(t.S.W, c))) {
		return b.C(t.S.W, 0), t
	}
	return b.UDiv(t, b.C(t.S.W, c)), b.URem(t, b.C(t.S.W, c))
}

// decimal digits of v, width n (v < 10^n)
func (ex *Ex) digits(v *Term, n int) []Value {
	b := ex.b
	out := make([]Value, n)
	for i := n - 1; i >= 0; i-- {
		var r *Term
		v, r = ex.divmod(v, 10)
		out[i] = b.Add(b.Extract(7, 0, r), b.C(8, '0'))
	}
	return out
}

// ---- time -------------------------------------------------------------------

var timeToks = []struct {
	tok string
	at  int
	n   int
}{{"2006", 0, 4}, {"01", 4, 2}, {"02", 6, 2}, {"15", 8, 2}, {"04", 10, 2}, {"05", 12, 2}, {"06", 2, 2}}

type ltok struct {
	at, n int
	lit   byte
}

func (ex *Ex) timeLayout(v Value) []ltok {
	s, ok := v.(StrV)
	if !ok {
		ex.unsupported("time layout")
	}
	vs, ok := s.S.concrete()
	if !ok {
		ex.unsupported("time layout not constant")
	}
	var bs []byte
	for _, e := range vs {
		t := e.(*Term)
		if !t.isConst() {
			ex.unsupported("time layout not constant")
		}
		bs = append(bs, byte(t.Val))
	}
	str := string(bs)
	var out []ltok
outer:
	for len(str) > 0 {
		for _, t := range timeToks {
			if strings.HasPrefix(str, t.tok) {
				out = append(out, ltok{at: t.at, n: t.n})
				str = str[len(t.tok):]
				continue outer
			}
		}
		if strings.IndexByte("-:/ T", str[0]) < 0 {
			ex.unsupported("time layout " + string(bs))
		}
		out = append(out, ltok{lit: str[0]})
		str = str[1:]
	}
	return out
}

const sec2000 = 946684800 - 14*3600  // any zone
const sec2100 = 4102444800 + 14*3600 // any zone

// timeDigit is digit i of YYYYMMDDhhmmss of instant sec in the local zone.
func (ex *Ex) timeDigit(sec *Term, i int) *Term {
	b := ex.b
	t := b.App(fmt.Sprintf("tfmt%d", i), BV(8), sec)
	k := fmt.Sprintf("tf%d", t.ID)
	if !ex.seen[k] {
		ex.seen[k] = true
		ex.assume(ex.isDigit(t))
	}
	return t
}

// repTime: sec is an instant of the years 2000..2099 in the local zone.
func (ex *Ex) repTime(sec *Term) *Term {
	return ex.b.App("in2000s", BoolS, sec)
}
func (ex *Ex) timeFormat(t TimeV, layout []ltok) Value {
	b := ex.b
	ex.e.Used["time.Format/ParseInLocation (canonical fixed-width digits; parse inverts format)"] = true
	if !ex.valid(ex.repYear(t.Sec)) {
		ex.unsupported("time.Format of an instant outside the representable years")
	}
	y2k := ex.known(ex.repTime(t.Sec)) == 1
	var out []Value
	for _, l := range layout {
		if l.n == 0 {
			out = append(out, b.C(8, uint64(l.lit)))
			continue
		}
		for i := l.at; i < l.at+l.n; i++ {
			if y2k && i == 0 {
				out = append(out, b.C(8, '2'))
			} else if y2k && i == 1 {
				out = append(out, b.C(8, '0'))
			} else {
				out = append(out, ex.timeDigit(t.Sec, i))
			}
		}
	}
	return StrV{elems(out...)}
}
func (ex *Ex) repYear(sec *Term) *Term {
	if ex.known(ex.repTime(sec)) == 1 {
		return ex.b.T
	}
	return ex.b.App("in4digits", BoolS, sec)
}

// timeOf: validity and instant of the 14 canonical digits.
func (ex *Ex) timeOf(d [14]*Term) (*Term, *Term) {
	b := ex.b
	// parse inverts format
	for i := range d {
		d[i] = ex.normDigit(d[i], i)
	}
	var sec *Term
	inv := true
	for i := 0; i < 14; i++ {
		if d[i].Op == OApp && d[i].Name == fmt.Sprintf("tfmt%d", i) {
			if sec == nil {
				sec = d[i].Args[0]
			} else if sec != d[i].Args[0] {
				inv = false
			}
		}
	}
	if sec != nil && inv {
		for i := 0; i < 14; i++ {
			if d[i].Op == OApp && d[i].Name == fmt.Sprintf("tfmt%d", i) {
				continue
			}
			y2k := ex.known(ex.repTime(sec)) == 1
			midnight := ex.known(b.App("midnight", BoolS, sec)) == 1
			if i == 0 && y2k && d[i] == b.C(8, '2') || i == 1 && y2k && d[i] == b.C(8, '0') || i >= 8 && midnight && d[i] == b.C(8, '0') {
				continue
			}
			inv = false
		}
		if inv {
			return b.T, sec
		}
	}
	ok := b.App("tok", BoolS, d[:]...)
	v := b.App("tsec", BV(64), d[:]...)
	k := fmt.Sprintf("tok%d", ok.ID)
	if !ex.seen[k] {
		ex.seen[k] = true
		for _, c := range d {
			ex.assume(b.Implies(ok, ex.isDigit(c)))
		}
	}
	return ok, v
}
func (ex *Ex) timeParse(layout []ltok, s *Seq) Value {
	b := ex.b
	ex.e.Used["time.Format/ParseInLocation (canonical fixed-width digits; parse inverts format)"] = true
	n := 0
	for _, l := range layout {
		if l.n == 0 {
			n++
		} else {
			n += l.n
		}
	}
	bad := TupleV{TimeV{Sec: b.I(zeroTimeSec)}, ex.errConst("timeparse")}
	if !ex.choose(b.Eq(ex.seqLen(s), b.I(int64(n)))) {
		return bad
	}
	vs, ok := ex.explode(s, 64)
	if !ok {
		for i := 0; i < n; i++ {
			vs = append(vs, ex.seqAt(s, b.I(int64(i))))
		}
		vs = vs[:n]
	}
	var d [14]*Term
	for i, c := range "00000101000000" {
		d[i] = b.C(8, uint64(c))
	}
	p := 0
	full := map[int]bool{}
	for _, l := range layout {
		if l.n == 0 {
			if !ex.choose(b.Eq(vs[p].(*Term), b.C(8, uint64(l.lit)))) {
				return bad
			}
			p++
			continue
		}
		for i := l.at; i < l.at+l.n; i++ {
			d[i] = vs[p].(*Term)
			full[i] = true
			p++
		}
	}
	if !full[0] {
		ex.unsupported("time layout without a four-digit year")
	}
	okT, sec := ex.timeOf(d)
	if !ex.choose(okT) {
		return bad
	}
	return TupleV{TimeV{Sec: sec}, ex.nilErr()}
}

// ---- decimals -----------------------------------------------------------------

func pow10Of(v uint64) int {
	n := 0
	for v > 1 {
		if v%10 != 0 {
			return -1
		}
		v /= 10
		n++
	}
	return n
}
func asDec(ex *Ex, v Value) DecV {
	d, ok := v.(DecV)
	if !ok {
		if p, ok := v.(PtrV); ok {
			if d, ok := ex.load(p).(DecV); ok {
				return d
			}
		}
		ex.unsupported("decimal operand")
	}
	return d
}
func (ex *Ex) decMul(x, y DecV) DecV {
	if y.Num.isConst() {
		if k := pow10Of(y.Num.Val); k >= 0 && y.Num.sval() > 0 {
			return DecV{Num: x.Num, Exp: x.Exp + y.Exp + k}
		}
	}
	if x.Num.isConst() {
		if k := pow10Of(x.Num.Val); k >= 0 && x.Num.sval() > 0 {
			return DecV{Num: y.Num, Exp: x.Exp + y.Exp + k}
		}
	}
	return DecV{Num: ex.b.Mul(x.Num, y.Num), Exp: x.Exp + y.Exp}
}
func (ex *Ex) decInt(d DecV) *Term {
	if d.Exp >= 0 {
		return ex.b.Mul(d.Num, ex.b.C(64, ex.pow10(d.Exp)))
	}
	return ex.b.SDiv(d.Num, ex.b.C(64, ex.pow10(-d.Exp)))
}

func boolInt(ex *Ex, lt, eq *Term) *Term {
	return ex.b.Ite(lt, ex.b.I(-1), ex.b.Ite(eq, ex.b.I(0), ex.b.I(1)))
}

// ---- the table ------------------------------------------------------------------

var models map[string]modelFn

func init() {
	nop := func(ex *Ex, a []Value, site string) Value { return nil }
	models = map[string]modelFn{
		"encoding/binary.bigEndian.PutUint16": putN(2), "encoding/binary.bigEndian.PutUint32": putN(4), "encoding/binary.bigEndian.PutUint64": putN(8),
		"encoding/binary.bigEndian.Uint16": getN(2), "encoding/binary.bigEndian.Uint32": getN(4), "encoding/binary.bigEndian.Uint64": getN(8),
		"encoding/binary.bigEndian.AppendUint16": appN(2), "encoding/binary.bigEndian.AppendUint32": appN(4),
		"errors.New": func(ex *Ex, a []Value, site string) Value { return ex.errConst("new:" + site) },
		"fmt.Errorf": func(ex *Ex, a []Value, site string) Value { return ex.errConst("new:" + site) },
		"bytes.NewBuffer": func(ex *Ex, a []Value, site string) Value {
			return ex.ptrNew(site+":buf", BufV{S: ex.content(asSlice(ex, a[0]))})
		},
		"bytes.NewReader": func(ex *Ex, a []Value, site string) Value {
			return ex.ptrNew(site+":rdr", RdrV{S: ex.content(asSlice(ex, a[0])), Pos: ex.b.I(0)})
		},
		"(*bytes.Buffer).Write": func(ex *Ex, a []Value, site string) Value {
			p, b := ex.buf(a[0])
			s := asSlice(ex, a[1])
			ex.set(p, BufV{S: ex.cat(b.S, ex.content(s))})
			return TupleV{s.Len, ex.nilErr()}
		},
		"(*bytes.Buffer).WriteString": func(ex *Ex, a []Value, site string) Value {
			p, b := ex.buf(a[0])
			s := a[1].(StrV).S
			ex.set(p, BufV{S: ex.cat(b.S, s)})
			return TupleV{ex.seqLen(s), ex.nilErr()}
		},
		"(*bytes.Buffer).WriteByte": func(ex *Ex, a []Value, site string) Value {
			p, b := ex.buf(a[0])
			ex.set(p, BufV{S: ex.cat(b.S, elems(a[1]))})
			return ex.nilErr()
		},
		"(*bytes.Buffer).Bytes": func(ex *Ex, a []Value, site string) Value {
			_, b := ex.buf(a[0])
			return ex.freshSlice(b.S, site)
		},
		"(*bytes.Buffer).String": func(ex *Ex, a []Value, site string) Value {
			_, b := ex.buf(a[0])
			return StrV{b.S}
		},
		"(*bytes.Buffer).Len": func(ex *Ex, a []Value, site string) Value {
			_, b := ex.buf(a[0])
			return ex.seqLen(b.S)
		},
		"(*bytes.Buffer).Grow": nop,
		"(*bytes.Buffer).Reset": func(ex *Ex, a []Value, site string) Value {
			p, _ := ex.buf(a[0])
			ex.set(p, BufV{S: emptySeq})
			return nil
		},
		"(*bytes.Buffer).Next": func(ex *Ex, a []Value, site string) Value {
			p, b := ex.buf(a[0])
			n := asTerm(ex, a[1])
			l := ex.seqLen(b.S)
			if !ex.valid(ex.b.SLe(n, l)) && !ex.choose(ex.b.SLe(n, l)) {
				n = l
			}
			ex.bounds(ex.b.SLe(ex.b.I(0), n), "slice bounds out of range")
			h := ex.sub(b.S, ex.b.I(0), n)
			t := ex.sub(b.S, n, ex.b.Sub(l, n))
			ex.set(p, BufV{S: t})
			return ex.freshSlice(h, site)
		},
		"(*bytes.Reader).Len": func(ex *Ex, a []Value, site string) Value {
			_, r := ex.rdr(a[0])
			return ex.rdrLen(r)
		},
		"(*bytes.Reader).Size": func(ex *Ex, a []Value, site string) Value {
			_, r := ex.rdr(a[0])
			return ex.seqLen(r.S)
		},
		"(*bytes.Reader).ReadByte": func(ex *Ex, a []Value, site string) Value {
			p, r := ex.rdr(a[0])
			if !ex.choose(ex.b.SLt(r.Pos, ex.seqLen(r.S))) {
				return TupleV{ex.b.C(8, 0), ex.errConst("io.EOF")}
			}
			v := ex.seqAt(r.S, r.Pos)
			ex.set(p, RdrV{S: r.S, Pos: ex.b.Add(r.Pos, ex.b.I(1))})
			return TupleV{v, ex.nilErr()}
		},
		"(*bytes.Reader).Read": func(ex *Ex, a []Value, site string) Value {
			p, r := ex.rdr(a[0])
			if !ex.choose(ex.b.SLt(r.Pos, ex.seqLen(r.S))) {
				return TupleV{ex.b.I(0), ex.errConst("io.EOF")}
			}
			d := asSlice(ex, a[1])
			n := d.Len
			rem := ex.b.Sub(ex.seqLen(r.S), r.Pos)
			if !ex.choose(ex.b.SLe(n, rem)) {
				n = rem
			}
			ex.sliceStore(d, ex.b.I(0), ex.sub(r.S, r.Pos, n))
			ex.set(p, RdrV{S: r.S, Pos: ex.b.Add(r.Pos, n)})
			return TupleV{n, ex.nilErr()}
		},
		"io.ReadFull": func(ex *Ex, a []Value, site string) Value {
			iv, ok := a[0].(IfaceV)
			if !ok || iv.T == nil || iv.T.String() != "*bytes.Reader" {
				ex.unsupported("ReadFull of such a reader")
			}
			p, r := ex.rdr(iv.V)
			d := asSlice(ex, a[1])
			rem := ex.b.Sub(ex.seqLen(r.S), r.Pos)
			if ex.choose(ex.b.SLe(d.Len, rem)) {
				ex.sliceStore(d, ex.b.I(0), ex.sub(r.S, r.Pos, d.Len))
				ex.set(p, RdrV{S: r.S, Pos: ex.b.Add(r.Pos, d.Len)})
				return TupleV{d.Len, ex.nilErr()}
			}
			if !ex.choose(ex.b.SLt(ex.b.I(0), rem)) {
				return TupleV{ex.b.I(0), ex.errConst("io.EOF")}
			}
			ex.sliceStore(d, ex.b.I(0), ex.sub(r.S, r.Pos, rem))
			ex.set(p, RdrV{S: r.S, Pos: ex.seqLen(r.S)})
			return TupleV{rem, ex.errConst("io.ErrUnexpectedEOF")}
		},
		"(*bytes.Reader).Seek": func(ex *Ex, a []Value, site string) Value {
			p, r := ex.rdr(a[0])
			wh := asTerm(ex, a[2])
			if !wh.isConst() {
				ex.unsupported("Seek whence")
			}
			var np *Term
			switch wh.Val {
			case 0:
				np = asTerm(ex, a[1])
			case 1:
				np = ex.b.Add(r.Pos, asTerm(ex, a[1]))
			case 2:
				np = ex.b.Add(ex.seqLen(r.S), asTerm(ex, a[1]))
			default:
				return TupleV{ex.b.I(0), ex.errConst("seek")}
			}
			if !ex.choose(ex.b.SLe(ex.b.I(0), np)) {
				return TupleV{ex.b.I(0), ex.errConst("seek")}
			}
			ex.set(p, RdrV{S: r.S, Pos: np})
			return TupleV{np, ex.nilErr()}
		},
		"bytes.IndexByte": func(ex *Ex, a []Value, site string) Value {
			return ex.indexByte(ex.content(asSlice(ex, a[0])), asTerm(ex, a[1]))
		},
		"strings.IndexByte": func(ex *Ex, a []Value, site string) Value {
			return ex.indexByte(a[0].(StrV).S, asTerm(ex, a[1]))
		},
		"bytes.Equal": func(ex *Ex, a []Value, site string) Value {
			return ex.strEq(ex.content(asSlice(ex, a[0])), ex.content(asSlice(ex, a[1])))
		},
		"io/ioutil.ReadAll": func(ex *Ex, a []Value, site string) Value { return ex.readAll(a[0], site) },
		"io.ReadAll":        func(ex *Ex, a []Value, site string) Value { return ex.readAll(a[0], site) },
		"golang.org/x/text/transform.NewReader": func(ex *Ex, a []Value, site string) Value {
			enc := false
			t, ok := a[1].(IfaceV)
			if !ok {
				ex.unsupported("transformer")
			}
			p, ok := t.V.(PtrV)
			if !ok || p.O == nil {
				ex.unsupported("transformer")
			}
			switch ex.load(p).(OpqV).Kind {
			case "gbenc":
				enc = true
			case "gbdec":
			default:
				ex.unsupported("transformer")
			}
			return ex.ptrNew(site+":tr", OpqV{Kind: "transform", Data: &trData{src: a[0], enc: enc}})
		},
		"(*golang.org/x/text/encoding.Encoder).Bytes":  gbConvert(true, false),
		"(*golang.org/x/text/encoding.Encoder).String": gbConvert(true, true),
		"(*golang.org/x/text/encoding.Decoder).Bytes":  gbConvert(false, false),
		"(*golang.org/x/text/encoding.Decoder).String": gbConvert(false, true),
		"strconv.FormatUint": func(ex *Ex, a []Value, site string) Value {
			ex.base10(a[1])
			return ex.formatUint(asTerm(ex, a[0]))
		},
		"strconv.Itoa": func(ex *Ex, a []Value, site string) Value {
			t := asTerm(ex, a[0])
			if !ex.valid(ex.b.SLe(ex.b.I(0), t)) {
				return ex.freshStr("itoa")
			}
			return ex.formatUint(t)
		},
		"strconv.ParseUint": func(ex *Ex, a []Value, site string) Value {
			ex.base10(a[1])
			if n := asTerm(ex, a[2]); !n.isConst() || n.Val != 64 && n.Val != 0 {
				ex.unsupported("ParseUint of another width")
			}
			return ex.parseUint(a[0], false)
		},
		"strconv.Atoi": func(ex *Ex, a []Value, site string) Value { return ex.parseUint(a[0], true) },
		"time.Unix": func(ex *Ex, a []Value, site string) Value {
			if n := asTerm(ex, a[1]); !n.isConst() || n.Val != 0 {
				ex.unsupported("time.Unix with nanoseconds")
			}
			return TimeV{Sec: asTerm(ex, a[0])}
		},
		"(time.Time).Unix":  func(ex *Ex, a []Value, site string) Value { return a[0].(TimeV).Sec },
		"(time.Time).Local": func(ex *Ex, a []Value, site string) Value { return a[0] },
		"(time.Time).Format": func(ex *Ex, a []Value, site string) Value {
			return ex.timeFormat(a[0].(TimeV), ex.timeLayout(a[1]))
		},
		"time.ParseInLocation": func(ex *Ex, a []Value, site string) Value {
			return ex.timeParse(ex.timeLayout(a[0]), a[1].(StrV).S)
		},
		"(time.Time).Add": func(ex *Ex, a []Value, site string) Value {
			t := a[0].(TimeV)
			if !(t.Sec.isConst() && t.Sec.sval() == zeroTimeSec && t.Ns == nil) {
				ex.unsupported("time.Add on a non-zero time")
			}
			return TimeV{Sec: t.Sec, Ns: asTerm(ex, a[1])}
		},
		"(time.Time).Hour":       clock(3600e9, 24),
		"(time.Time).Minute":     clock(60e9, 60),
		"(time.Time).Second":     clock(1e9, 60),
		"(time.Time).Nanosecond": clock(1, 1e9),
		"fmt.Sprintf":            func(ex *Ex, a []Value, site string) Value { return ex.sprintf(a, site) },
		"fmt.Sprint": func(ex *Ex, a []Value, site string) Value {
			if as, ok := ex.content(asSlice(ex, a[0])).concrete(); ok && len(as) == 1 {
				if sq, ok := ex.printed(as[0], 'v'); ok {
					return StrV{sq}
				}
			}
			return ex.freshStr("sprint")
		},
		"fmt.Println": func(ex *Ex, a []Value, site string) Value {
			return TupleV{ex.b.I(0), ex.nilErr()}
		},
		"fmt.Printf": func(ex *Ex, a []Value, site string) Value {
			return TupleV{ex.b.I(0), ex.nilErr()}
		},
		"encoding/hex.EncodeToString": func(ex *Ex, a []Value, site string) Value { return ex.freshStr("hex") },
		"runtime/debug.PrintStack":    nop,
		"crypto/sha1.New": func(ex *Ex, a []Value, site string) Value {
			return IfaceV{Nil: ex.b.F, Id: ex.fresh("hash", BV(32)), V: OpqV{Kind: "sha1"}}
		},
		"reflect.ValueOf": func(ex *Ex, a []Value, site string) Value {
			return OpqV{Kind: "reflect", Data: a[0]}
		},
		"(reflect.Value).IsNil": func(ex *Ex, a []Value, site string) Value {
			o := a[0].(OpqV)
			iv := o.Data.(IfaceV)
			if !iv.Nil.isFalse() && ex.choose(iv.Nil) {
				ex.throw("reflect: IsNil on zero Value", nil)
			}
			switch v := iv.V.(type) {
			case PtrV:
				return v.Nil
			case MapRef:
				return v.Nil
			case SliceV:
				return v.Nil
			}
			if iv.T == nil && iv.Id != nil {
				return ex.b.App("typednil", BoolS, iv.Id)
			}
			ex.throw("reflect: IsNil on a value that cannot be nil", nil)
			return nil
		},
		"math.Abs": func(ex *Ex, a []Value, site string) Value {
			f, ok := a[0].(FloatV)
			if !ok {
				ex.unsupported("math.Abs")
			}
			return FloatV{I: ex.b.Ite(ex.b.SLt(f.I, ex.b.I(0)), ex.b.Neg(f.I), f.I)}
		},
		"github.com/shopspring/decimal.NewFromFloat": func(ex *Ex, a []Value, site string) Value {
			f, ok := a[0].(FloatV)
			if !ok {
				ex.unsupported("decimal of a fractional float")
			}
			return DecV{Num: f.I}
		},
		"github.com/shopspring/decimal.NewFromInt": func(ex *Ex, a []Value, site string) Value { return DecV{Num: asTerm(ex, a[0])} },
		"github.com/shopspring/decimal.NewFromInt32": func(ex *Ex, a []Value, site string) Value {
			return DecV{Num: ex.b.Sext(64, asTerm(ex, a[0]))}
		},
		"github.com/shopspring/decimal.New": func(ex *Ex, a []Value, site string) Value {
			e := asTerm(ex, a[1])
			if !e.isConst() {
				ex.unsupported("decimal.New exponent")
			}
			return DecV{Num: asTerm(ex, a[0]), Exp: int(e.sval())}
		},
		"(github.com/shopspring/decimal.Decimal).Mul": func(ex *Ex, a []Value, site string) Value {
			return ex.decMul(asDec(ex, a[0]), asDec(ex, a[1]))
		},
		"(github.com/shopspring/decimal.Decimal).Div": func(ex *Ex, a []Value, site string) Value {
			x, y := asDec(ex, a[0]), asDec(ex, a[1])
			if y.Num.isConst() && y.Num.sval() > 0 {
				if k := pow10Of(y.Num.Val); k >= 0 && k+y.Exp <= 16 {
					return DecV{Num: x.Num, Exp: x.Exp - k - y.Exp}
				}
			}
			ex.unsupported("decimal division by something other than a power of ten")
			return nil
		},
		"(github.com/shopspring/decimal.Decimal).Shift": func(ex *Ex, a []Value, site string) Value {
			x, k := asDec(ex, a[0]), asTerm(ex, a[1])
			if !k.isConst() {
				ex.unsupported("decimal shift")
			}
			return DecV{Num: x.Num, Exp: x.Exp + int(k.sval())}
		},
		"(github.com/shopspring/decimal.Decimal).Sub": func(ex *Ex, a []Value, site string) Value {
			x, y := asDec(ex, a[0]), asDec(ex, a[1])
			p, q := ex.decScale(x, y)
			return DecV{Num: ex.b.Sub(p, q), Exp: minInt(x.Exp, y.Exp)}
		},
		"(github.com/shopspring/decimal.Decimal).Add": func(ex *Ex, a []Value, site string) Value {
			x, y := asDec(ex, a[0]), asDec(ex, a[1])
			p, q := ex.decScale(x, y)
			return DecV{Num: ex.b.Add(p, q), Exp: minInt(x.Exp, y.Exp)}
		},
		"(github.com/shopspring/decimal.Decimal).Neg": func(ex *Ex, a []Value, site string) Value {
			x := asDec(ex, a[0])
			return DecV{Num: ex.b.Neg(x.Num), Exp: x.Exp}
		},
		"(github.com/shopspring/decimal.Decimal).Abs": func(ex *Ex, a []Value, site string) Value {
			x := asDec(ex, a[0])
			return DecV{Num: ex.b.Ite(ex.b.SLt(x.Num, ex.b.I(0)), ex.b.Neg(x.Num), x.Num), Exp: x.Exp}
		},
		"(github.com/shopspring/decimal.Decimal).Truncate": func(ex *Ex, a []Value, site string) Value {
			x, n := asDec(ex, a[0]), asTerm(ex, a[1])
			if !n.isConst() {
				ex.unsupported("decimal truncate")
			}
			k := int(sx(n.Val, n.S.W))
			if k < 0 || -x.Exp <= k {
				return x
			}
			return DecV{Num: ex.b.SDiv(x.Num, ex.b.C(64, ex.pow10(-x.Exp-k))), Exp: -k}
		},
		"(github.com/shopspring/decimal.Decimal).IntPart": func(ex *Ex, a []Value, site string) Value { return ex.decInt(asDec(ex, a[0])) },
		"(github.com/shopspring/decimal.Decimal).Cmp": func(ex *Ex, a []Value, site string) Value {
			p, q := ex.decScale(asDec(ex, a[0]), asDec(ex, a[1]))
			return boolInt(ex, ex.b.SLt(p, q), ex.b.Eq(p, q))
		},
		"(github.com/shopspring/decimal.Decimal).Sign": func(ex *Ex, a []Value, site string) Value {
			x := asDec(ex, a[0])
			return boolInt(ex, ex.b.SLt(x.Num, ex.b.I(0)), ex.b.Eq(x.Num, ex.b.I(0)))
		},
		"(github.com/shopspring/decimal.Decimal).IsNegative": func(ex *Ex, a []Value, site string) Value {
			return ex.b.SLt(asDec(ex, a[0]).Num, ex.b.I(0))
		},
		"(github.com/shopspring/decimal.Decimal).LessThan": func(ex *Ex, a []Value, site string) Value {
			p, q := ex.decScale(asDec(ex, a[0]), asDec(ex, a[1]))
			return ex.b.SLt(p, q)
		},
		"math/big.NewInt": func(ex *Ex, a []Value, site string) Value {
			if t := asTerm(ex, a[0]); !t.isConst() || t.Val != 0 {
				ex.unsupported("big.NewInt of a non-zero value")
			}
			return ex.ptrNew(site+":big", OpqV{Kind: "big", Data: bigV{emptySeq}})
		},
		"(*math/big.Int).SetBytes": func(ex *Ex, a []Value, site string) Value {
			p := asPtr(ex, a[0])
			ex.set(p, OpqV{Kind: "big", Data: bigV{ex.content(asSlice(ex, a[1]))}})
			return p
		},
		"(*math/big.Int).Bytes": func(ex *Ex, a []Value, site string) Value {
			s := ex.bigBytes(a[0])
			return ex.freshSlice(s, site)
		},
		"(*crypto/rsa.PublicKey).Size": func(ex *Ex, a []Value, site string) Value {
			_, v := ex.deref(a[0])
			sv, ok := v.(StructV)
			if !ok {
				ex.unsupported("rsa.PublicKey")
			}
			return ex.seqLen(ex.bigBytes(sv.F[0]))
		},
		"compress/gzip.NewWriter": func(ex *Ex, a []Value, site string) Value {
			iv := a[0].(IfaceV)
			p, ok := iv.V.(PtrV)
			if !ok {
				ex.unsupported("gzip writer target")
			}
			return ex.ptrNew(site+":gz", StructV{F: []Value{OpqV{Kind: "gzw", Data: &gzwData{p}}, BufV{S: emptySeq}}})
		},
		"(*compress/gzip.Writer).Write": func(ex *Ex, a []Value, site string) Value {
			p, v := ex.deref(a[0])
			s := asSlice(ex, a[1])
			sv := v.(StructV)
			ex.set(p, StructV{F: []Value{sv.F[0], BufV{S: ex.cat(sv.F[1].(BufV).S, ex.content(s))}}})
			return TupleV{s.Len, ex.nilErr()}
		},
		"(*compress/gzip.Writer).Close": func(ex *Ex, a []Value, site string) Value {
			_, v := ex.deref(a[0])
			sv := v.(StructV)
			d := sv.F[0].(OpqV).Data.(*gzwData)
			b := ex.load(d.dst).(BufV)
			ex.set(d.dst, BufV{S: ex.cat(b.S, ex.gz(sv.F[1].(BufV).S))})
			return ex.nilErr()
		},
	}
	gzipModels()
	for _, p := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
		models["(*sync.Mutex)."+p] = lockModel(p)
		models["(*sync.RWMutex)."+p] = lockModel(p)
	}
	for _, t := range []string{"Uint32", "Int64", "Uint64", "Int32"} {
		t := t
		models["sync/atomic.Load"+t] = func(ex *Ex, a []Value, site string) Value {
			if h := ex.hooks["atomic.Load"]; h != nil {
				if v, done := h(ex, a); done {
					return v
				}
			}
			return ex.load(asPtr(ex, a[0]))
		}
		models["sync/atomic.Store"+t] = func(ex *Ex, a []Value, site string) Value {
			if h := ex.hooks["atomic.Store"]; h != nil {
				if v, done := h(ex, a); done {
					return v
				}
			}
			ex.store(asPtr(ex, a[0]), a[1])
			return nil
		}
		models["sync/atomic.Swap"+t] = func(ex *Ex, a []Value, site string) Value {
			old := models["sync/atomic.Load"+t](ex, a[:1], site)
			models["sync/atomic.Store"+t](ex, a, site)
			return old
		}
		models["sync/atomic.Add"+t] = func(ex *Ex, a []Value, site string) Value {
			if h := ex.hooks["atomic.Add"]; h != nil {
				if v, done := h(ex, a); done {
					return v
				}
			}
			p := asPtr(ex, a[0])
			n := ex.b.Add(ex.load(p).(*Term), asTerm(ex, a[1]))
			ex.store(p, n)
			return n
		}
		models["sync/atomic.CompareAndSwap"+t] = func(ex *Ex, a []Value, site string) Value {
			if h := ex.hooks["atomic.CAS"]; h != nil {
				if v, done := h(ex, a); done {
					return v
				}
			}
			p := asPtr(ex, a[0])
			if ex.choose(ex.b.Eq(ex.load(p).(*Term), asTerm(ex, a[1]))) {
				ex.store(p, a[2])
				return ex.b.T
			}
			return ex.b.F
		}
		models["(*sync/atomic."+t+").Load"] = models["sync/atomic.Load"+t]
		models["(*sync/atomic."+t+").Store"] = models["sync/atomic.Store"+t]
		models["(*sync/atomic."+t+").Swap"] = models["sync/atomic.Swap"+t]
		models["(*sync/atomic."+t+").Add"] = models["sync/atomic.Add"+t]
		models["(*sync/atomic."+t+").CompareAndSwap"] = models["sync/atomic.CompareAndSwap"+t]
	}
	models["(*sync.Once).Do"] = func(ex *Ex, a []Value, site string) Value {
		p := asPtr(ex, a[0])
		o, _ := ex.getPath(p.O.Val, p.Path).(OpqV)
		if o.Data == "done" {
			return nil
		}
		ex.set(p, OpqV{Kind: "sync.Once", Data: "done"})
		return ex.callValue(a[1], nil, site)
	}
}

func lockModel(name string) modelFn {
	return func(ex *Ex, a []Value, site string) Value {
		ex.events = append(ex.events, Event{Kind: name, V: []Value{a[0]}})
		if h := ex.hooks["lock"]; h != nil {
			h(ex, []Value{a[0], OpqV{Kind: name}})
		}
		return nil
	}
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func (ex *Ex) gz(s *Seq) *Seq {
	ex.e.Used["compress/gzip writer (uninterpreted function of the written bytes)"] = true
	return ex.strSeq(ex.b.App("gzip", US("Str"), ex.seqTerm(s)))
}
func (ex *Ex) bigBytes(v Value) *Seq {
	_, x := ex.deref(v)
	o, ok := x.(OpqV)
	if !ok || o.Kind != "big" {
		ex.unsupported("big.Int")
	}
	s := o.Data.(bigV).S
	n := ex.seqLen(s)
	if n.isConst() && n.Val == 0 {
		return s
	}
	if ex.valid(ex.b.Ne(ex.byteAt(s, ex.b.I(0)), ex.b.C(8, 0))) {
		return s
	}
	ex.unsupported("big.Int with leading zero bytes")
	return nil
}

func putN(n int) modelFn {
	return func(ex *Ex, a []Value, site string) Value {
		s := asSlice(ex, a[len(a)-2])
		ex.bounds(ex.b.SLe(ex.b.I(int64(n)), s.Len), "index out of range")
		ex.sliceStore(s, ex.b.I(0), ex.beBytes(asTerm(ex, a[len(a)-1])))
		return nil
	}
}
func getN(n int) modelFn {
	return func(ex *Ex, a []Value, site string) Value {
		s := asSlice(ex, a[len(a)-1])
		ex.bounds(ex.b.SLe(ex.b.I(int64(n)), s.Len), "index out of range")
		return ex.bigEndian(ex.sub(ex.content(s), ex.b.I(0), ex.b.I(int64(n))), n)
	}
}
func appN(n int) modelFn {
	return func(ex *Ex, a []Value, site string) Value {
		s := asSlice(ex, a[len(a)-2])
		return ex.sliceOf(ex.cat(ex.content(s), ex.beBytes(asTerm(ex, a[len(a)-1]))), site, types.Typ[types.Uint8])
	}
}
func clock(unit, mod uint64) modelFn {
	return func(ex *Ex, a []Value, site string) Value {
		t := a[0].(TimeV)
		if t.Ns == nil || !t.Sec.isConst() {
			ex.unsupported("clock reading of a general time")
		}
		if !ex.valid(ex.b.SLe(ex.b.I(0), t.Ns)) {
			ex.unsupported("clock reading of a negative duration")
		}
		q, _ := ex.divmod(t.Ns, unit)
		_, r := ex.divmod(q, mod)
		return r
	}
}

// formatUint: decimal text of a natural number.
func (ex *Ex) formatUint(t *Term) Value {
	b := ex.b
	if t.isConst() {
		return StrV{ex.bytesSeq(fmt.Sprint(t.Val))}
	}
	lim := uint64(10)
	if ex.known(b.App("fewdigits", BoolS, t)) == 1 {
		for n := 1; n <= 12; n++ {
			if n == 12 || ex.choose(b.ULt(t, b.C(64, lim))) {
				return StrV{elems(ex.digits(t, n)...)}
			}
			lim *= 10
		}
	}
	ex.e.Used["strconv.FormatUint/ParseUint (injective decimal text; parse inverts format)"] = true
	return StrV{ex.strSeq(b.App("fmtu", US("Str"), t))}
}
func (ex *Ex) parseUint(v Value, signed bool) Value {
	b := ex.b
	s, ok := v.(StrV)
	if !ok {
		ex.unsupported("ParseUint operand")
	}
	bad := TupleV{b.I(0), ex.errConst("parseuint")}
	if len(s.S.Segs) == 1 && s.S.Segs[0].B != nil {
		if sb, ok := s.S.Segs[0].B.(StrBase); ok && sb.T.Op == OApp && sb.T.Name == "fmtu" && s.S.Segs[0].N == ex.slen(sb.T) {
			return TupleV{sb.T.Args[0], ex.nilErr()}
		}
		if sb, ok := s.S.Segs[0].B.(StrBase); ok && sb.T.Op == OVar {
			// arbitrary text: parses or not
			if ex.choose(b.App("isnum", BoolS, sb.T)) {
				return TupleV{b.App("numof", BV(64), sb.T), ex.nilErr()}
			}
			return bad
		}
	}
	vs, ok := ex.explode(s.S, 20)
	if !ok {
		ex.unsupported("ParseUint of a string of unknown length")
	}
	if len(vs) == 0 || len(vs) > 18 {
		if len(vs) > 18 {
			ex.unsupported("ParseUint of a long string")
		}
		return bad
	}
	if signed {
		c := vs[0].(*Term)
		if !ex.valid(b.And(b.Ne(c, b.C(8, '+')), b.Ne(c, b.C(8, '-')))) {
			ex.unsupported("Atoi of a string with a sign")
		}
	}
	for _, c := range vs {
		if !ex.choose(ex.isDigit(c.(*Term))) {
			return bad
		}
	}
	return TupleV{ex.parseDigits(vs), ex.nilErr()}
}

// sprintf supports constant formats of %0Nd verbs with provably fitting
// arguments; any other use yields an unknown string.
func (ex *Ex) sprintf(a []Value, site string) Value {
	f, ok := a[0].(StrV)
	if !ok {
		return ex.freshStr("sprintf")
	}
	vs, ok := f.S.concrete()
	if !ok {
		return ex.freshStr("sprintf")
	}
	var fs []byte
	for _, v := range vs {
		t := v.(*Term)
		if !t.isConst() {
			return ex.freshStr("sprintf")
		}
		fs = append(fs, byte(t.Val))
	}
	args := ex.content(asSlice(ex, a[1]))
	as, ok := args.concrete()
	if !ok {
		return ex.freshStr("sprintf")
	}
	segs := emptySeq
	var out []Value
	flush := func() {
		if len(out) > 0 {
			segs = ex.cat(segs, elems(out...))
			out = nil
		}
	}
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			out = append(out, ex.b.C(8, uint64(fs[i])))
			continue
		}
		if i+1 < len(fs) && fs[i+1] == '%' {
			out = append(out, ex.b.C(8, '%'))
			i++
			continue
		}
		if i+3 < len(fs) && fs[i+1] == '0' && fs[i+2] >= '1' && fs[i+2] <= '9' && fs[i+3] == 'd' && ai < len(as) {
			n := int(fs[i+2] - '0')
			iv, ok := as[ai].(IfaceV)
			if !ok {
				return ex.freshStr("sprintf")
			}
			t, ok := iv.V.(*Term)
			if !ok || t.S.W != 64 || !ex.valid(ex.b.ULt(t, ex.b.C(64, ex.pow10(n)))) {
				return ex.freshStr("sprintf")
			}
			out = append(out, ex.digits(t, n)...)
			ai++
			i += 3
			continue
		}
		if h := ex.hooks["sprintf"]; h != nil {
			if v, done := h(ex, a); done {
				return v
			}
		}
		if i+1 < len(fs) && fs[i+1] == 'c' && ai < len(as) {
			iv, _ := as[ai].(IfaceV)
			t, ok := iv.V.(*Term)
			if !ok || !t.isConst() || t.Val >= 128 {
				return ex.freshStr("sprintf")
			}
			out = append(out, ex.b.C(8, t.Val))
			ai++
			i++
			continue
		}
		if i+1 < len(fs) && (fs[i+1] == 'd' || fs[i+1] == 'v' || fs[i+1] == 's') && ai < len(as) {
			sq, ok := ex.printed(as[ai], fs[i+1])
			if !ok {
				return ex.freshStr("sprintf")
			}
			flush()
			segs = ex.cat(segs, sq)
			ai++
			i++
			continue
		}
		return ex.freshStr("sprintf")
	}
	flush()
	return StrV{segs}
}

// printed: what %d, %s or %v shows of a plain unsigned integer or string.
func (ex *Ex) printed(v Value, verb byte) (*Seq, bool) {
	iv, ok := v.(IfaceV)
	if !ok || iv.T == nil {
		return nil, false
	}
	if n, ok := iv.T.(*types.Named); ok && n.NumMethods() > 0 && verb != 'd' {
		return nil, false // may have its own text
	}
	bt, ok := iv.T.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch x := iv.V.(type) {
	case *Term:
		if bt.Info()&types.IsInteger == 0 || verb == 's' {
			return nil, false
		}
		t := x
		if t.S.W < 64 {
			if bt.Info()&types.IsUnsigned == 0 {
				return nil, false
			}
			t = ex.b.Zext(64, t)
		}
		if bt.Info()&types.IsUnsigned == 0 && !ex.valid(ex.b.SLe(ex.b.I(0), t)) {
			return nil, false
		}
		r, ok := ex.formatUint(t).(StrV)
		return r.S, ok
	case StrV:
		return x.S, verb != 'd'
	}
	return nil, false
}

func (ex *Ex) base10(v Value) {
	if n := asTerm(ex, v); !n.isConst() || n.Val != 10 {
		ex.unsupported("number text of a base other than ten")
	}
}

// ---- dispatch -------------------------------------------------------------------

func extName(fn *ssa.Function) string {
	n := fn.String()
	n = strings.ReplaceAll(n, "(encoding/binary.bigEndian).", "encoding/binary.bigEndian.")
	return n
}

func (ex *Ex) external(fn *ssa.Function, args []Value, site string) Value {
	for _, a := range args {
		ex.usePoison(a)
	}
	n := extName(fn)
	if h, ok := ex.hooks[n]; ok {
		if r, done := h(ex, args); done {
			ex.e.Used["assumed contract: "+n] = true
			return r
		}
	}
	if m, ok := models[n]; ok {
		ex.e.Used["assumed contract: "+n] = true
		return m(ex, args, site)
	}
	if strings.Contains(n, "github.com/sirupsen/logrus") {
		// logging: no effect on the program's results
		ex.e.Used["assumed contract: logrus calls have no effect on results"] = true
		return ex.opaqueResult(fn.Signature, "log")
	}
	ex.unsupported("call of " + n + " (no contract for it)")
	return nil
}

func (ex *Ex) opaqueResult(sg *types.Signature, kind string) Value {
	mk := func(t types.Type) Value {
		switch t.Underlying().(type) {
		case *types.Pointer:
			return ex.ptrNew(kind, OpqV{Kind: kind})
		case *types.Interface:
			return IfaceV{Nil: ex.b.F, Id: ex.fresh(kind, BV(32))}
		}
		return ex.zero(t)
	}
	switch sg.Results().Len() {
	case 0:
		return nil
	case 1:
		return mk(sg.Results().At(0).Type())
	}
	var tv TupleV
	for i := 0; i < sg.Results().Len(); i++ {
		tv = append(tv, mk(sg.Results().At(i).Type()))
	}
	return tv
}

func (ex *Ex) externalGlobal(name string, t types.Type) Value {
	switch name {
	case "io.EOF", "io.ErrUnexpectedEOF", "io.ErrShortBuffer":
		return ex.errConst(name)
	case "github.com/shopspring/decimal.Zero":
		return DecV{Num: ex.b.I(0)}
	case "golang.org/x/text/encoding/simplifiedchinese.GB18030":
		return IfaceV{Nil: ex.b.F, V: OpqV{Kind: "gb18030"}}
	case "golang.org/x/text/encoding/simplifiedchinese.GBK", "golang.org/x/text/encoding/simplifiedchinese.HZGB2312":
		ex.unsupported("text encoding " + name)
	case "encoding/binary.BigEndian":
		return StructV{}
	case "encoding/binary.LittleEndian":
		ex.unsupported("little-endian access")
	}
	if strings.HasSuffix(t.String(), "error") {
		return ex.errConst(name)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return IfaceV{Nil: ex.b.F, Id: ex.fresh("g:"+name, BV(32)), V: OpqV{Kind: "global:" + name}}
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return ex.ptrNew("g:"+name, OpqV{Kind: "global:" + name})
	}
	return OpqV{Kind: "global:" + name}
}

func (ex *Ex) opaqueMethod(o OpqV, m string, args []Value, site string) Value {
	switch o.Kind + "." + m {
	case "gb18030.NewEncoder":
		return ex.ptrNew("gbenc", OpqV{Kind: "gbenc"})
	case "gb18030.NewDecoder":
		return ex.ptrNew("gbdec", OpqV{Kind: "gbdec"})
	}
	if h, ok := ex.hooks["opq:"+o.Kind+"."+m]; ok {
		if r, done := h(ex, append([]Value{o}, args...)); done {
			ex.e.Used["assumed contract: "+o.Kind+"."+m] = true
			return r
		}
	}
	ex.unsupported("method " + m + " of opaque " + o.Kind)
	return nil
}
func (ex *Ex) opaqueInvoke(iv IfaceV, m *types.Func, args []Value, site string) Value {
	if h, ok := ex.hooks["iface:"+m.Name()]; ok {
		if r, done := h(ex, append([]Value{iv}, args...)); done {
			ex.e.Used["interface contract: "+m.Name()+" of an arbitrary implementation"] = true
			return r
		}
	}
	if m.Name() == "Error" && len(args) == 0 {
		return ex.freshStr("errtext")
	}
	ex.unsupported("method " + m.Name() + " of an unknown implementation")
	return nil
}
func (ex *Ex) opaqueAssert(iv IfaceV, in *ssa.TypeAssert) Value {
	if h, ok := ex.hooks["assert:"+in.AssertedType.String()]; ok {
		if r, done := h(ex, []Value{iv}); done {
			if in.CommaOk {
				return r
			}
			tv := r.(TupleV)
			if !ex.choose(tv[1].(*Term)) {
				ex.throw("interface conversion", nil)
			}
			return tv[0]
		}
	}
	ex.unsupported("type assertion to " + in.AssertedType.String() + " on an unknown implementation")
	return nil
}

func (ex *Ex) spawn(f func() Value, site string) {
	ex.events = append(ex.events, Event{Kind: "go", V: []Value{StrV{ex.bytesSeq(site)}}})
	ex.spawned = append(ex.spawned, f)
}
func (ex *Ex) chanRecv(c Value, commaOk bool, t types.Type) Value {
	if h := ex.hooks["chanrecv"]; h != nil {
		if r, done := h(ex, []Value{c, ex.b.Bool(commaOk)}); done {
			return r
		}
	}
	ex.unsupported("channel receive")
	return nil
}
func (ex *Ex) chanSend(c, v Value) { ex.unsupported("channel send") }
func (ex *Ex) doSelect(fr *Frame, in *ssa.Select) Value {
	if h := ex.hooks["select"]; h != nil {
		if r, done := h(ex, nil); done {
			return r
		}
	}
	ex.unsupported("select")
	return nil
}

// ---- maps -------------------------------------------------------------------------

func (ex *Ex) mapOf(m MapRef) MapV {
	if m.O == nil {
		return MapV{}
	}
	ex.usePoison(m.O.Val)
	mv, ok := m.O.Val.(MapV)
	if !ok {
		ex.unsupported("map content")
	}
	return mv
}
func (ex *Ex) mapFind(m MapRef, key Value) (Value, bool) {
	mv := ex.mapOf(m)
	for _, e := range mv.Ents {
		if ex.choose(ex.goEq(e.K, key)) {
			if e.V == nil {
				return nil, false
			}
			return e.V, true
		}
	}
	if mv.Base != nil {
		if ex.choose(mv.Base.Has(ex, key)) {
			return mv.Base.Val(ex, key), true
		}
	}
	return nil, false
}
func (ex *Ex) mapLookup(m MapRef, key Value, in *ssa.Lookup) Value {
	if ex.monitor != nil && m.O != nil {
		ex.monitor.access(ex, ex.ptrTo(m.O), false)
	}
	if t, ok := key.(*Term); ok && ex.onLookup != "" {
		ex.bindFor(t, ex.onLookup)
	}
	var v Value
	ok := false
	if !m.Nil.isTrue() {
		v, ok = ex.mapFind(m, key)
	}
	if !ok {
		v = ex.zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		return TupleV{v, ex.b.Bool(ok)}
	}
	return v
}
func (ex *Ex) mapStore(m MapRef, key, val Value) {
	if !m.Nil.isFalse() && ex.choose(m.Nil) {
		ex.throw("assignment to entry in nil map", nil)
	}
	if ex.monitor != nil {
		ex.monitor.access(ex, ex.ptrTo(m.O), true)
	}
	mv := ex.mapOf(m)
	m.O.Val = MapV{Ents: append([]MapEnt{{key, val}}, mv.Ents...), Base: mv.Base}
}
func (ex *Ex) mapDelete(m MapRef, key Value) {
	if m.O == nil {
		return
	}
	if ex.monitor != nil {
		ex.monitor.access(ex, ex.ptrTo(m.O), true)
	}
	mv := ex.mapOf(m)
	m.O.Val = MapV{Ents: append([]MapEnt{{key, nil}}, mv.Ents...), Base: mv.Base}
}
func (ex *Ex) mapLen(m MapRef) *Term {
	mv := ex.mapOf(m)
	if mv.Base != nil && mv.Base.Range != nil && len(mv.Ents) == 0 {
		l, _ := mv.Base.Range(ex)
		return l.N
	}
	if mv.Base != nil {
		n := ex.fresh("maplen", BV(64))
		ex.assume(ex.b.And(ex.b.SLe(ex.b.I(0), n), ex.b.SLe(n, ex.b.I(1<<30))))
		if ex.lenFact != nil {
			ex.lenFact(mv, n)
		}
		return n
	}
	var keys []Value
	n := 0
outer:
	for _, e := range mv.Ents {
		for _, k := range keys {
			if ex.choose(ex.goEq(k, e.K)) {
				continue outer
			}
		}
		keys = append(keys, e.K)
		if e.V != nil {
			n++
		}
	}
	return ex.b.I(int64(n))
}

type rangeL struct {
	l   *SpecList
	key func(j *Term) Value
	o   *Obj
	was Value
}
type rangeV struct {
	keys []MapEnt
	pos  int
}

func (ex *Ex) rangeStart(v Value, in *ssa.Range) Value {
	switch x := v.(type) {
	case MapRef:
		if ex.monitor != nil && x.O != nil {
			ex.monitor.access(ex, ex.ptrTo(x.O), false)
		}
		mv := ex.mapOf(x)
		if mv.Base != nil && mv.Base.Range != nil && len(mv.Ents) == 0 {
			l, key := mv.Base.Range(ex)
			return ex.ptrNew("range", StructV{F: []Value{OpqV{Kind: "rangel", Data: &rangeL{l, key, x.O, x.O.Val}}, ex.b.I(0)}})
		}
		if mv.Base != nil {
			ex.unsupported("range over a map of unknown content")
		}
		r := &rangeV{}
		var seen []Value
	outer:
		for _, e := range mv.Ents {
			for _, k := range seen {
				if ex.choose(ex.goEq(k, e.K)) {
					continue outer
				}
			}
			seen = append(seen, e.K)
			if e.V != nil {
				r.keys = append(r.keys, e)
			}
		}
		return ex.ptrNew("range", OpqV{Kind: "range", Data: r})
	}
	ex.unsupported("range over " + in.X.Type().String())
	return nil
}
func (ex *Ex) rangeNext(fr *Frame, in *ssa.Next) Value {
	p := ex.val(fr, in.Iter).(PtrV)
	if sv, ok := p.O.Val.(StructV); ok {
		ex.usePoison(sv.F[1])
		r := sv.F[0].(OpqV).Data.(*rangeL)
		pos := sv.F[1].(*Term)
		tt := in.Type().(*types.Tuple)
		if ex.monitor != nil {
			ex.monitor.access(ex, ex.ptrTo(r.o), false)
		}
		if m, ok := r.o.Val.(MapV); !ok || m.Base != r.was.(MapV).Base || len(m.Ents) != len(r.was.(MapV).Ents) {
			ex.unsupported("a map that changes while it is ranged over")
		}
		// the loop walks this map: try the map's own list first
		if n := len(fr.loops); n > 0 && fr.loops[n-1].plan.Inv {
			if pl := fr.loops[n-1].plan; pl.Bind < 0 && !pl.Last {
				for i, l := range ex.lists {
					if l == r.l {
						pl.Bind = i - 1
						ex.nextBind(pl, fr.loops[n-1].depth)
					}
				}
			}
		}
		if !ex.choose(ex.b.SLt(pos, r.l.N)) {
			return TupleV{ex.b.F, ex.zeroOr(tt.At(1).Type()), ex.zeroOr(tt.At(2).Type())}
		}
		p.O.Val = StructV{F: []Value{sv.F[0], ex.b.Add(pos, ex.b.I(1))}}
		return TupleV{ex.b.T, r.key(pos), r.l.Elem(ex, pos)}
	}
	o := p.O.Val.(OpqV)
	r := o.Data.(*rangeV)
	tt := in.Type().(*types.Tuple)
	if r.pos >= len(r.keys) {
		return TupleV{ex.b.F, ex.zeroOr(tt.At(1).Type()), ex.zeroOr(tt.At(2).Type())}
	}
	e := r.keys[r.pos]
	p.O.Val = OpqV{Kind: "range", Data: &rangeV{keys: r.keys, pos: r.pos + 1}}
	return TupleV{ex.b.T, e.K, e.V}
}
func (ex *Ex) zeroOr(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return ex.zero(t)
}

func sortStrings(s []string) []string { sort.Strings(s); return s }

// ---- gzip reader --------------------------------------------------------------
// gzok(c): c is a complete intact stream; gunz(c): its contents. The reads a caller
// makes form a list: all but the last return some bytes and no error, the last one
// the remaining bytes and io.EOF (or another error if the stream is damaged).

type gzrData struct {
	t  *Term
	ok *Term
	l  *SpecList
}

func gzState(v Value) (*gzrData, RdrV, bool) {
	sv, ok := v.(StructV)
	if !ok || len(sv.F) != 2 {
		return nil, RdrV{}, false
	}
	o, ok1 := sv.F[0].(OpqV)
	r, ok2 := sv.F[1].(RdrV)
	if !ok1 || !ok2 || o.Kind != "gzr" {
		return nil, RdrV{}, false
	}
	return o.Data.(*gzrData), r, true
}
func (ex *Ex) gunz(t *Term) (ok *Term, s *Seq) {
	ex.e.Used["compress/gzip reader (uninterpreted stream contents, read in arbitrary pieces)"] = true
	return ex.b.App("gzok", BoolS, t), ex.strSeq(ex.b.App("gunz", US("Str"), t))
}
func gzipModels() {
	models["compress/gzip.NewReader"] = func(ex *Ex, a []Value, site string) Value {
		b := ex.b
		iv, ok := a[0].(IfaceV)
		if !ok {
			ex.unsupported("gzip source")
		}
		p, ok := iv.V.(PtrV)
		if !ok || p.O == nil {
			ex.unsupported("gzip source")
		}
		r, ok := ex.load(p).(RdrV)
		if !ok {
			ex.unsupported("gzip source")
		}
		n := ex.rdrLen(r)
		t := ex.seqTerm(ex.sub(r.S, r.Pos, n))
		ex.set(p, RdrV{S: r.S, Pos: ex.b.Add(r.Pos, n)})
		good, S := ex.gunz(t)
		hdr := b.App("gzhdr", BoolS, t)
		ex.assume(b.Implies(good, hdr))
		if !ex.choose(hdr) {
			return TupleV{ex.nilPtr(), ex.errConst("gzhdr")}
		}
		key := fmt.Sprintf("gz%d", t.ID)
		N := b.Var("N:"+key, BV(64))
		ex.assume(b.And(b.SLe(b.I(0), N), b.SLe(N, b.I(1<<40))))
		total := ex.seqLen(S)
		d := &gzrData{t: t, ok: good}
		l := &SpecList{Key: key, N: N}
		l.P = func(ex *Ex, k *Term) *Term {
			if k.isConst() && k.Val == 0 {
				return b.I(0)
			}
			x := b.App("P:"+key, BV(64), k)
			ex.assume(b.And(b.SLe(b.I(0), x), b.SLe(x, total)))
			ex.assume(b.Eq(b.App("P:"+key, BV(64), b.I(0)), b.I(0)))
			return x
		}
		l.Unfold = func(ex *Ex, k *Term) int {
			if ex.choose(b.SLt(k, N)) {
				ex.assume(b.SLt(l.P(ex, k), l.P(ex, b.Add(k, b.I(1)))))
				return 1
			}
			ex.assume(b.Eq(k, N))
			return 0
		}
		l.Forms = append(l.Forms, func(ex *Ex, init Value, k *Term) (Value, bool) {
			switch x := init.(type) {
			case BufV:
				return BufV{S: ex.cat(x.S, ex.sub(S, b.I(0), l.P(ex, k)))}, true
			case SliceV:
				r := ex.sliceOf(ex.cat(ex.content(x), ex.sub(S, b.I(0), l.P(ex, k))), "gzbuf", types.Typ[types.Uint8])
				r.Nil = b.And(x.Nil, b.Eq(k, b.I(0)))
				return r, true
			}
			return nil, false
		})
		d.l = l
		ex.lists = append(ex.lists, l)
		q := ex.ptrNew(site+":gzr", StructV{F: []Value{OpqV{Kind: "gzr", Data: d}, RdrV{S: S, Pos: b.I(0)}}})
		return TupleV{q, ex.nilErr()}
	}
	models["(*compress/gzip.Reader).Read"] = func(ex *Ex, a []Value, site string) Value {
		b := ex.b
		p, v := ex.deref(a[0])
		if sv, ok := v.(StructV); ok && len(sv.F) == 2 {
			ex.usePoison(sv.F[1])
		}
		d, r, ok := gzState(v)
		if !ok {
			ex.unsupported("gzip reader state")
		}
		dst := asSlice(ex, a[1])
		// the read number, when the enclosing loop walks the list of reads
		var k *Term
		st := 0
		for _, f := range ex.stack {
			for _, li := range f.loops {
				if li.list == d.l {
					k, st = li.k, li.state
				}
			}
		}
		total := ex.seqLen(r.S)
		var n *Term
		end := false
		if k != nil && ex.valid(b.Eq(r.Pos, d.l.P(ex, k))) {
			if st == 1 {
				n = b.Sub(d.l.P(ex, b.Add(k, b.I(1))), r.Pos)
			} else {
				end = true
			}
		} else if !ex.choose(b.Eq(b.App("gzend", BV(1), d.t, r.Pos), b.C(1, 1))) {
			n = ex.fresh("gzn", BV(64))
			ex.assume(b.And(b.SLt(b.I(0), n), b.SLe(n, b.Sub(total, r.Pos))))
		} else {
			end = true
		}
		err := ex.nilErr()
		if end {
			if ex.choose(d.ok) {
				n = b.Sub(total, r.Pos)
				err = ex.errConst("io.EOF")
			} else {
				n = ex.fresh("gzn", BV(64))
				ex.assume(b.And(b.SLe(b.I(0), n), b.SLe(n, b.Sub(total, r.Pos))))
				err = ex.errConst("gzip")
			}
		}
		ex.assume(b.SLe(n, dst.Len))
		ex.seq++
		junk := &havocBase{name: fmt.Sprintf("gzjunk%d", ex.seq), t: types.Typ[types.Uint8], ex: ex}
		ex.sliceStore(dst, b.I(0), ex.cat(ex.sub(r.S, r.Pos, n), ex.win(junk, b.I(0), b.Sub(dst.Len, n))))
		ex.set(p, StructV{F: []Value{v.(StructV).F[0], RdrV{S: r.S, Pos: b.Add(r.Pos, n)}}})
		return TupleV{n, err}
	}
	models["(*compress/gzip.Reader).Close"] = func(ex *Ex, a []Value, site string) Value { return ex.nilErr() }
}
