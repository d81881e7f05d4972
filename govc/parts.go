package main

import (
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- multi-part files ---------------------------------------------------------
// MultipartFile against a ghost file system. Where Write stores a part is taken
// from running Write on a symbolic upload; the directory that IsFull and Merge
// walk holds, in any order, the files that Write and Merge can have left there,
// for arbitrary terminals, message ids, tags and part numbers.

const stubPath = "govc/stub"

const stubText = `package stub

func Walk(n int, call func(i int) error) error {
	for i := 0; i < n; i++ {
		if err := call(i); err != nil {
			return err
		}
	}
	return nil
}
`

func stubPackage(prog *ssa.Program) (*ssa.Package, error) {
	f, err := goparser.ParseFile(prog.Fset, "stub.go", stubText, 0)
	if err != nil {
		return nil, err
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}
	p, err := (&types.Config{}).Check(stubPath, prog.Fset, []*ast.File{f}, info)
	if err != nil {
		return nil, err
	}
	sp := prog.CreatePackage(p, []*ast.File{f}, info, false)
	sp.Build()
	return sp, nil
}

// ---- texts made of constants and numbers ----------------------------------------

// tok is a character that is not a digit, a number in canonical decimal, other
// digits, or an opaque text that ends before a slash.
type tok struct {
	c   byte
	num *Term // 64 bits
	lit string
	opq *Term
}

func (ex *Ex) toks(s *Seq) ([]tok, bool) {
	var out []tok
	digits := ""
	flush := func() {
		if digits == "" {
			return
		}
		if (len(digits) == 1 || digits[0] != '0') && len(digits) < 19 {
			n := uint64(0)
			for _, c := range digits {
				n = n*10 + uint64(c-'0')
			}
			out = append(out, tok{num: ex.b.C(64, n)})
		} else {
			out = append(out, tok{lit: digits})
		}
		digits = ""
	}
	for _, g := range s.Segs {
		if g.Elems != nil {
			for _, e := range g.Elems {
				t, ok := e.(*Term)
				if !ok || !t.isConst() {
					return nil, false
				}
				if c := byte(t.Val); c >= '0' && c <= '9' {
					if digits == "" && len(out) > 0 && (out[len(out)-1].num != nil || out[len(out)-1].opq != nil) {
						return nil, false // where the number ends is lost
					}
					digits += string(rune(c))
				} else {
					flush()
					if len(out) > 0 && out[len(out)-1].opq != nil && c != '/' {
						return nil, false
					}
					out = append(out, tok{c: c})
				}
			}
			continue
		}
		sb, ok := g.B.(StrBase)
		if !ok || !g.From.isConst() || g.From.Val != 0 || g.N != ex.slen(sb.T) || digits != "" {
			return nil, false
		}
		if n := len(out); n > 0 && out[n-1].c == 0 {
			return nil, false
		}
		switch {
		case sb.T.Op == OApp && sb.T.Name == "fmtu":
			out = append(out, tok{num: sb.T.Args[0]})
		case sb.T.Op == OVar && sb.T.Name == "tempdir":
			out = append(out, tok{opq: sb.T})
		default:
			return nil, false
		}
	}
	flush()
	return out, true
}

// tokEq: the texts are equal. Numbers stand between other characters, so that
// the texts agree exactly when they agree part by part.
func (ex *Ex) tokEq(x, y []tok) *Term {
	b := ex.b
	if len(x) != len(y) {
		return b.F
	}
	r := b.T
	for i := range x {
		switch {
		case x[i].num != nil && y[i].num != nil:
			r = b.And(r, b.Eq(x[i].num, y[i].num))
		case x[i].num != nil || y[i].num != nil || x[i].c != y[i].c || x[i].lit != y[i].lit || x[i].opq != y[i].opq:
			return b.F
		}
	}
	return r
}
func (ex *Ex) untok(ts []tok) StrV {
	s := emptySeq
	for _, t := range ts {
		switch {
		case t.num != nil:
			s = ex.cat(s, ex.formatUint(t.num).(StrV).S)
		case t.opq != nil:
			s = ex.cat(s, ex.strSeq(t.opq))
		case t.lit != "":
			s = ex.cat(s, ex.bytesSeq(t.lit))
		default:
			s = ex.cat(s, elems(ex.b.C(8, uint64(t.c))))
		}
	}
	return StrV{s}
}
func (ex *Ex) strToks(v Value) []tok {
	s, ok := v.(StrV)
	if !ok {
		ex.unsupported("text operand")
	}
	ts, ok := ex.toks(s.S)
	if !ok {
		ex.unsupported("a text that is not made of constants and separated numbers: " + ex.seqStr(s.S))
	}
	return ts
}

// constText: the text, if it is constant.
func (ex *Ex) constText(v Value) (string, bool) {
	s, ok := v.(StrV)
	if !ok {
		return "", false
	}
	vs, ok := s.S.concrete()
	if !ok {
		return "", false
	}
	out := ""
	for _, v := range vs {
		t, ok := v.(*Term)
		if !ok || !t.isConst() {
			return "", false
		}
		out += string([]byte{byte(t.Val)})
	}
	return out, true
}
func lastTok(ts []tok, c byte) int {
	for i := len(ts) - 1; i >= 0; i-- {
		if ts[i].c == c {
			return i
		}
	}
	return -1
}

// ---- the environment ---------------------------------------------------------------

type partEnv struct {
	ex                 *Ex
	w                  *World
	mt                 *types.Named
	icc, msg, tag, sum *Term // the upload
	q                  [4]*Term
	tmpl               []tok   // where Write stores the part q
	left               [][]tok // what Merge leaves
	dry                bool
	self               Value
	D, R               *SpecList
	nd                 *Term
	missing            *Term // first part that is not stored
	files              []*ghostFile
	made               [][]tok // directories made
	failed             bool
	rem                *Obj
	s0                 *Term
	walks              int
}
type ghostFile struct {
	path []tok
	buf  *Obj
	made bool
}

const (
	fPath = iota
	fPos
	fBuf
	fWrite
)

func (p *partEnv) field(n string) int { return fieldIndex(p.mt, n) }

func newPartEnv(w *World, ex *Ex) *partEnv {
	b := ex.b
	p := &partEnv{ex: ex, w: w, mt: w.namedIn("go808", "MultipartFile")}
	ex.tokens = true
	ex.strictBind = true
	ex.onLookup = "present"
	p.hooks()
	p.q = [4]*Term{b.Var("q.icc", BV(64)), b.Var("q.msg", BV(16)), b.Var("q.tag", BV(32)), b.Var("q.seq", BV(16))}
	p.icc, p.msg, p.tag, p.sum = b.Var("IccID", BV(64)), b.Var("MsgID", BV(16)), b.Var("Tag", BV(32)), b.Var("Sum", BV(16))
	return p
}
func (p *partEnv) upload(icc, msg, tag, sum *Term) Value {
	v := p.ex.zero(p.mt).(StructV)
	fs := append([]Value{}, v.F...)
	fs[p.field("IccID")], fs[p.field("MsgID")], fs[p.field("Tag")], fs[p.field("Sum")] = icc, msg, tag, sum
	return StructV{F: fs}
}

// method calls a method of MultipartFile, whether it takes a value or a pointer.
func (p *partEnv) call(name string, self Value, args ...Value) Value {
	fn := p.w.method(p.mt, name)
	if fn == nil {
		p.ex.unsupported("MultipartFile." + name + " not found")
	}
	if _, ok := fn.Params[0].Type().(*types.Pointer); ok {
		self = p.ex.ptrTo(p.ex.newObj("upload", self, p.mt))
	}
	return p.ex.callFn(fn, append([]Value{self}, args...), nil, "root")
}

// capture runs Write on the part q, without failures, to learn where it stores it.
func (p *partEnv) capture() {
	ex := p.ex
	data := ex.freshSlice(ex.strSeq(ex.fresh("captured", US("Str"))), "captured")
	r := p.call("Write", p.upload(p.q[0], p.q[1], p.q[2], ex.fresh("q.sum", BV(16))), p.q[3], data)
	if iv, ok := r.(IfaceV); !ok || p.failed || !ex.valid(iv.Nil) {
		ex.cut()
	}
	var f *ghostFile
	for _, x := range p.files {
		if x.made {
			if f != nil {
				ex.unsupported("Write makes several files")
			}
			f = x
		}
	}
	if f == nil {
		ex.failNow("a part is stored in a file", "Write makes no file")
		ex.cut()
	}
	p.tmpl = f.path
	p.files, p.made = nil, nil
}

// captureMerge runs Merge on an upload of no parts to learn what files it leaves.
func (p *partEnv) captureMerge() {
	ex, b := p.ex, p.ex.b
	sum := b.Var("q.sum", BV(16))
	ex.assume(b.Eq(sum, b.C(16, 0)))
	p.dry = true
	p.call("Merge", p.upload(p.q[0], p.q[1], p.q[2], sum))
	p.dry = false
	for _, f := range p.files {
		if f.made {
			p.left = append(p.left, f.path)
		}
	}
	p.files, p.made = nil, nil
}
func (p *partEnv) leftPath(i int, icc, msg, tag, sum *Term) []tok {
	return p.subst(p.left[i], map[*Term]*Term{p.q[0]: icc, p.q[1]: msg, p.q[2]: tag, p.ex.b.Var("q.sum", BV(16)): sum})
}

func (p *partEnv) subst(ts []tok, m map[*Term]*Term) []tok {
	out := append([]tok{}, ts...)
	for i := range out {
		if out[i].num != nil {
			out[i].num = p.ex.b.Subst(out[i].num, m)
		}
	}
	return out
}
func (p *partEnv) partPath(icc, msg, tag, seq *Term) []tok {
	return p.subst(p.tmpl, map[*Term]*Term{p.q[0]: icc, p.q[1]: msg, p.q[2]: tag, p.q[3]: seq})
}

// part: the path is that of a part; which one.
func (p *partEnv) part(path []tok) (f [4]*Term, ok bool) {
	ex, b := p.ex, p.ex.b
	if len(path) != len(p.tmpl) {
		return f, false
	}
	for i, t := range p.tmpl {
		x := path[i]
		if t.num == nil {
			if x != t {
				return f, false
			}
			continue
		}
		if x.num == nil {
			return f, false
		}
		for j, q := range p.q {
			if t.num == q || t.num == b.Zext(64, q) {
				v := x.num
				if q.S.W < 64 {
					v = b.Extract(q.S.W-1, 0, x.num)
				}
				if !ex.valid(b.Eq(x.num, b.Zext(64, v))) {
					return f, false
				}
				if f[j] != nil && !ex.valid(b.Eq(f[j], v)) {
					return f, false
				}
				f[j] = v
			}
		}
	}
	for _, x := range f {
		if x == nil {
			return f, false
		}
	}
	return f, true
}

// own: the part belongs to the upload.
func (p *partEnv) own(f [4]*Term) *Term {
	b := p.ex.b
	return b.And(b.Eq(f[0], p.icc), b.Eq(f[1], p.msg), b.Eq(f[2], p.tag))
}
func (p *partEnv) stored(x *Term) *Term { return p.ex.b.App("stored", BoolS, x) }
func (p *partEnv) rank(x *Term) *Term   { return p.ex.b.App("rank", BV(64), x) }
func (p *partEnv) inRange(x *Term) *Term {
	b := p.ex.b
	return b.And(b.ULe(b.C(16, 1), x), b.ULe(x, p.sum))
}

func (p *partEnv) ent(j *Term) (f [4]*Term, part *Term) {
	b := p.ex.b
	f = [4]*Term{b.App("d.icc", BV(64), j), b.App("d.msg", BV(16), j), b.App("d.tag", BV(32), j), b.App("d.seq", BV(16), j)}
	return f, b.App("d.part", BoolS, j)
}

// isOwn: entry j is a part of the upload. The listing holds each stored part once.
func (p *partEnv) isOwn(j *Term) *Term {
	ex, b := p.ex, p.ex.b
	f, part := p.ent(j)
	r := b.And(part, p.own(f))
	in := b.And(b.SLe(b.I(0), j), b.SLt(j, p.nd))
	ex.assume(b.Implies(b.And(in, r), b.And(p.stored(f[3]), b.Eq(p.rank(f[3]), j))))
	return r
}

// know instantiates what is known about the stored part x.
func (p *partEnv) know(x *Term) {
	ex, b := p.ex, p.ex.b
	j := p.rank(x)
	f, part := p.ent(j)
	ex.assume(b.Implies(p.stored(x), b.And(b.SLe(b.I(0), j), b.SLt(j, p.nd), part, p.own(f), b.Eq(f[3], x))))
	// parts before the first missing one are stored
	m := b.Zext(64, x)
	ex.assume(b.Implies(b.And(b.ULe(b.I(1), m), b.ULt(m, p.missing)), p.stored(x)))
}
func (p *partEnv) full() *Term { return p.ex.b.ULt(p.ex.b.Zext(64, p.sum), p.missing) }

// setup makes the upload, the directory and the specification lists.
func (p *partEnv) setup() {
	ex, b := p.ex, p.ex.b
	p.self = p.upload(p.icc, p.msg, p.tag, p.sum)
	p.nd = b.Var("dir.N", BV(64))
	ex.assume(b.And(b.SLe(b.I(0), p.nd), b.SLt(p.nd, b.I(1<<40))))
	p.missing = b.Var("missing", BV(64))
	n := b.Zext(64, p.sum)
	ex.assume(b.And(b.ULe(b.I(1), p.missing), b.ULe(p.missing, b.Add(n, b.I(1)))))
	mx := b.Extract(15, 0, p.missing)
	ex.assume(b.Implies(b.ULe(p.missing, n), b.Not(p.stored(mx))))
	p.know(mx)
	key16 := func(v Value) *Term {
		t, ok := v.(*Term)
		if !ok {
			ex.unsupported("a map with keys that are not part numbers")
		}
		switch {
		case t.S.W == 16:
			return t
		case t.S.W > 16:
			return b.Extract(15, 0, t)
		}
		return b.Zext(16, t)
	}
	wide := func(v Value) *Term { return b.Zext(64, v.(*Term)) }
	num := func(v Value) *Term { // the key is a 16-bit number
		t := v.(*Term)
		if t.S.W <= 16 {
			return b.T
		}
		return b.Eq(t, b.Zext(t.S.W, b.Extract(15, 0, t)))
	}
	d := &SpecList{Key: "dir", N: p.nd}
	d.Unfold = func(ex *Ex, k *Term) int {
		if ex.choose(b.SLe(p.nd, k)) {
			ex.assume(b.Eq(p.nd, k))
			return 0
		}
		p.isOwn(k)
		return 1
	}
	d.Elem = func(ex *Ex, j *Term) Value { return p.info(j) }
	d.Match = []func(ex *Ex, k *Term) *Term{
		func(ex *Ex, k *Term) *Term {
			f, _ := p.ent(k)
			return b.And(p.isOwn(k), p.inRange(f[3]))
		},
		func(ex *Ex, k *Term) *Term { return p.isOwn(k) },
	}
	d.Kept = func(ex *Ex, v int, tmpl Value, kv, i *Term) Value {
		j := d.idx(ex, v, i)
		f, _ := p.ent(j)
		c := b.And(p.isOwn(j), b.SLe(b.I(0), j), b.SLt(j, p.nd))
		if v == 0 {
			c = b.And(c, p.inRange(f[3]))
		}
		ex.assume(b.Implies(b.And(b.SLe(b.I(0), i), b.SLt(i, d.cnt(ex, v, p.nd))), c))
		return ex.substVal(tmpl, map[*Term]*Term{kv: j})
	}
	vis := func(ranged bool) Visit {
		return Visit{
			Vis: func(ex *Ex, key Value, k *Term) *Term {
				x := key16(key)
				p.know(x)
				r := b.And(num(key), p.stored(x), b.SLt(p.rank(x), k))
				if ranged {
					r = b.And(r, p.inRange(x))
				}
				return r
			},
			At: func(ex *Ex, tmpl Value, kv *Term, key Value) Value { return p.at(tmpl, kv, key16(key)) },
		}
	}
	d.Visit = []Visit{vis(false), vis(true)}
	d.Forms = []func(ex *Ex, init Value, k *Term) (Value, bool){func(ex *Ex, init Value, k *Term) (Value, bool) {
		t, ok := init.(*Term)
		if !ok || t.S != BoolS {
			return nil, false
		}
		p.know(p.s0)
		return b.Or(t, b.And(p.stored(p.s0), b.SLt(p.rank(p.s0), k))), true
	}}
	r := &SpecList{Key: "parts", N: n}
	r.Unfold = func(ex *Ex, k *Term) int {
		if ex.choose(b.SLe(n, k)) {
			ex.assume(b.Eq(n, k))
			return 0
		}
		p.know(b.Extract(15, 0, b.Add(k, b.I(1))))
		return 1
	}
	r.Elem = func(ex *Ex, j *Term) Value { return b.Extract(15, 0, b.Add(j, b.I(1))) }
	r.Flat = &partFlat{p}
	count := func(from uint64) Visit {
		return Visit{
			Vis: func(ex *Ex, key Value, k *Term) *Term {
				x := wide(key)
				return b.And(b.ULe(b.C(64, from), x), b.ULt(b.Sub(x, b.C(64, from)), k))
			},
			At: func(ex *Ex, tmpl Value, kv *Term, key Value) Value {
				return ex.substVal(tmpl, map[*Term]*Term{kv: b.Sub(wide(key), b.C(64, from))})
			},
		}
	}
	r.Visit = []Visit{count(1), count(0)}
	p.s0 = b.Var("anypart", BV(16))
	ex.assume(b.ULe(b.C(16, 1), p.s0))
	ex.assume(b.Implies(b.ULt(b.C(16, 0), p.sum), p.inRange(p.s0)))
	p.know(p.s0)
	p.rem = ex.newObj("fs:removed", b.F, nil)
	r.Forms = []func(ex *Ex, init Value, k *Term) (Value, bool){func(ex *Ex, init Value, k *Term) (Value, bool) {
		t, ok := init.(*Term)
		if !ok || t.S != BoolS {
			return nil, false
		}
		return b.Or(t, b.ULe(b.Zext(64, p.s0), k)), true
	}}
	m := &SpecList{Key: "present", N: b.Sub(p.missing, b.I(1))}
	m.Unfold = func(ex *Ex, k *Term) int {
		p.know(b.Extract(15, 0, b.Add(k, b.I(1))))
		if ex.choose(b.SLe(m.N, k)) {
			ex.assume(b.Eq(m.N, k))
			return 0
		}
		return 1
	}
	m.Elem = r.Elem
	p.D, p.R = d, r
	p.total()
	ex.lists = append(ex.lists, d, m, r)
	ex.mapEq = func(x, y MapV) bool {
		key, ok := p.anyKey(x, y)
		if !ok {
			return true
		}
		hx, hy := ex.hasTerm(x, key), ex.hasTerm(y, key)
		if !ex.valid(b.Eq(hx, hy)) {
			return false
		}
		if !ex.choose(hx) {
			return true
		}
		return ex.provEq(ex.valAt(x, key), ex.valAt(y, key))
	}
	ex.lenFact = func(mv MapV, n *Term) {
		w := ex.fresh("somekey", BV(p.keyWidth(mv)))
		p.know(key16(w))
		ex.assume(b.Implies(b.Ne(n, b.I(0)), ex.hasTerm(mv, w)))
		var at Value = b.Extract(w.S.W-1, 0, p.missing)
		ex.assume(b.Implies(b.Eq(n, b.I(0)), b.Not(ex.hasTerm(mv, at))))
		// a set of exactly the stored parts of the upload
		x := ex.fresh("anykey", BV(w.S.W))
		p.know(key16(x))
		if ex.valid(b.Eq(ex.hasTerm(mv, x), b.And(num(x), p.inRange(key16(x)), p.stored(key16(x))))) {
			ex.assume(b.Eq(n, p.total()))
		}
	}
}

// total: how many parts of the upload are stored.
func (p *partEnv) total() *Term {
	ex, b := p.ex, p.ex.b
	t := p.D.cnt(ex, 0, p.nd)
	n := b.Zext(64, p.sum)
	ex.assume(b.And(b.SLe(t, n), b.Eq(b.Eq(t, n), p.full())))
	return t
}
func (p *partEnv) keyWidth(mv MapV) int {
	for _, e := range mv.Ents {
		if t, ok := e.K.(*Term); ok {
			return t.S.W
		}
	}
	return 16
}
func (p *partEnv) anyKey(ms ...MapV) (Value, bool) {
	w := 0
	for _, m := range ms {
		for _, e := range m.Ents {
			t, ok := e.K.(*Term)
			if !ok {
				p.ex.unsupported("a map with keys that are not part numbers")
			}
			w = t.S.W
		}
	}
	if w == 0 {
		w = 16
	}
	x := p.ex.b.Var(fmt.Sprintf("anykey%d", w), BV(w))
	if w >= 16 {
		p.know(p.ex.b.Extract(15, 0, x))
	}
	return x, true
}

// at: what was kept of the stored part x of the upload.
func (p *partEnv) at(tmpl Value, kv, x *Term) Value {
	p.know(x)
	f, part := p.ent(kv)
	return p.ex.substVal(tmpl, map[*Term]*Term{f[0]: p.icc, f[1]: p.msg, f[2]: p.tag, f[3]: x, part: p.ex.b.T, kv: p.rank(x)})
}

func (p *partEnv) content(seq *Term) *Seq {
	return p.ex.strSeq(p.ex.b.App("content", US("Str"), seq))
}

type partFlat struct{ p *partEnv }

func (f *partFlat) Key() string { return "partdata" }
func (f *partFlat) Expand(ex *Ex, j *Term) *Seq {
	return f.p.content(ex.b.Extract(15, 0, ex.b.Add(j, ex.b.I(1))))
}
func (f *partFlat) Len(ex *Ex, from, to *Term) *Term { return flatLen(ex, f.Key(), from, to) }

// ---- entries -----------------------------------------------------------------------

type dirEntry struct {
	j   *Term // nil: the directory itself
	dir []tok
}

func (p *partEnv) info(j *Term) Value {
	return IfaceV{Nil: p.ex.b.F, Id: p.ex.b.C(32, 0x7001), V: OpqV{Kind: "fileinfo", Data: &dirEntry{j: j}}}
}

// entryPath: where entry j of the walked directory lies.
func (p *partEnv) entryPath(root []tok, j *Term) []tok {
	ex, b := p.ex, p.ex.b
	f, part := p.ent(j)
	path := p.partPath(f[0], f[1], f[2], f[3])
	if len(path) <= len(root) || path[len(root)].c != '/' {
		ex.failNow("the directory that Write stores parts in is walked", "another directory is walked")
		ex.cut()
	}
	c := ex.tokEq(path[:len(root)], root)
	if c.isFalse() {
		ex.failNow("the directory that Write stores parts in is walked", "another directory is walked")
		ex.cut()
	}
	ex.assume(c)
	p.isOwn(j)
	if ex.choose(part) {
		return path
	}
	// what Merge left
	var at []int
	for i := range p.left {
		if l := p.left[i]; len(l) > len(root) && !ex.tokEq(l[:len(root)], root).isFalse() {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		ex.assume(part)
		return path
	}
	i := at[0]
	if len(at) > 1 {
		i = at[ex.chooseN(len(at))]
	}
	out := p.leftPath(i, f[0], f[1], f[2], b.App("d.sum", BV(16), j))
	ex.assume(ex.tokEq(out[:len(root)], root))
	return out
}

// walk calls visit for the directory and for each file in it.
func (p *partEnv) walk(root Value, visit func(path Value, info Value, err Value) Value) Value {
	ex, b := p.ex, p.ex.b
	rt := ex.strToks(root)
	end := func(r Value) Value {
		iv := r.(IfaceV)
		if iv.Nil.isTrue() || ex.choose(iv.Nil) {
			return ex.nilErr()
		}
		skip := ex.errConst("path/filepath.SkipDir")
		if iv.Id != nil && ex.choose(b.Eq(iv.Id, skip.Id)) {
			return ex.nilErr()
		}
		return r
	}
	if p.dry {
		return end(visit(root, ex.nilIface(), ex.errConst("notexist")))
	}
	if p.D == nil { // Write does not walk
		ex.unsupported("a directory walk outside IsFull and Merge")
	}
	switch ex.chooseN(3) {
	case 0:
		ex.assume(b.Eq(p.nd, b.I(0)))
		return end(visit(root, ex.nilIface(), ex.errConst("notexist")))
	case 1:
		p.failed = true
		return end(visit(root, p.dirInfo(rt), ex.errConst("unreadable")))
	}
	r := visit(root, p.dirInfo(rt), ex.nilErr()).(IfaceV)
	if !r.Nil.isTrue() && !ex.choose(r.Nil) {
		return end(r)
	}
	fn := p.w.Stub.Func("Walk")
	call := FuncV{Nil: b.F, Mod: func(ex *Ex, a []Value) Value {
		j := a[0].(*Term)
		path := p.entryPath(rt, j)
		return visit(ex.untok(path), p.info(j), ex.nilErr())
	}}
	p.walks++
	return end(ex.callFn(fn, []Value{p.nd, call}, nil, fmt.Sprintf("walk%d", p.walks)))
}
func (p *partEnv) dirInfo(rt []tok) Value {
	return IfaceV{Nil: p.ex.b.F, Id: p.ex.b.C(32, 0x7002), V: OpqV{Kind: "fileinfo", Data: &dirEntry{dir: rt}}}
}

// ---- files -------------------------------------------------------------------------

func (p *partEnv) fails(what string) bool {
	if p.tmpl == nil || p.dry { // capturing
		return false
	}
	if p.ex.choose(p.ex.fresh("fails:"+what, BoolS)) {
		p.failed = true
		return true
	}
	return false
}

// file: the ghost file at a path that is not a part's.
func (p *partEnv) file(path []tok) *ghostFile {
	ex := p.ex
	for _, f := range p.files {
		if ex.valid(ex.tokEq(f.path, path)) {
			return f
		}
	}
	f := &ghostFile{path: path, buf: ex.newObj(fmt.Sprintf("fs:file%d", len(p.files)), BufV{ex.strSeq(ex.fresh("leftover", US("Str")))}, nil)}
	p.files = append(p.files, f)
	return f
}

const (
	oWronly = 1
	oRdwr   = 2
	oAppend = 0x400
	oCreate = 0x40
	oExcl   = 0x80
	oTrunc  = 0x200
)

func (p *partEnv) handle(path Value, buf *Obj, seq *Seq, write bool) Value {
	ex := p.ex
	var c Value = StrV{emptySeq}
	if seq != nil {
		c = StrV{seq}
	}
	if buf != nil {
		c = ex.ptrTo(buf)
	}
	return ex.ptrTo(ex.newObj("file", StructV{F: []Value{path, ex.b.I(0), c, ex.b.Bool(write)}}, nil))
}
func (p *partEnv) open(name Value, flags uint64) Value {
	ex, b := p.ex, p.ex.b
	path := ex.strToks(name)
	bad := func(e string) Value { return TupleV{ex.nilPtr(), ex.errConst(e)} }
	if p.D != nil {
		if f, ok := p.part(path); ok {
			if flags&(oWronly|oRdwr|oCreate|oTrunc) != 0 {
				ex.failNow("merging does not change the parts", "a part is opened for writing")
				ex.cut()
			}
			if !ex.valid(p.own(f)) {
				ex.failNow("only parts of the upload are merged", "a part of another upload is opened")
				ex.cut()
			}
			p.know(f[3])
			ex.bindFor(f[3], "present")
			if !ex.choose(p.stored(f[3])) {
				return bad("notexist")
			}
			if ex.choose(b.And(ex.load(ex.ptrTo(p.rem)).(*Term), b.Eq(f[3], p.s0))) {
				return bad("notexist")
			}
			if p.fails("open") {
				return bad("open")
			}
			return TupleV{p.handle(name, nil, p.content(f[3]), false), ex.nilErr()}
		}
	}
	write := flags&(oWronly|oRdwr) != 0
	if p.fails("open") {
		return bad("open")
	}
	f := p.file(path)
	if write && flags&oCreate != 0 {
		f.made = true
		p.inMade(path)
	}
	if write && flags&oTrunc != 0 {
		f.buf.Val = BufV{emptySeq}
	}
	return TupleV{p.handle(name, f.buf, nil, write), ex.nilErr()}
}

// inMade: a new file lies in a directory that was made.
func (p *partEnv) inMade(path []tok) {
	ex := p.ex
	if p.D != nil || p.dry {
		return
	}
	dir := path[:lastTok(path, '/')]
	for _, d := range p.made {
		if len(d) >= len(dir) && ex.valid(ex.tokEq(d[:len(dir)], dir)) {
			return
		}
	}
	ex.failNow("the directory is made before the file", "a file is made in a directory that may not exist")
}
func (p *partEnv) fileOf(v Value) (StructV, *Obj, bool) {
	if iv, ok := v.(IfaceV); ok {
		v = iv.V
	}
	pv, ok := v.(PtrV)
	if !ok || pv.O == nil || len(pv.Path) > 0 {
		return StructV{}, nil, false
	}
	sv, ok := pv.O.Val.(StructV)
	if !ok || len(sv.F) != 4 {
		return StructV{}, nil, false
	}
	return sv, pv.O, true
}

// data: everything a reader still yields.
func (p *partEnv) data(v Value) *Seq {
	ex := p.ex
	sv, _, ok := p.fileOf(v)
	if !ok {
		ex.unsupported("reading from something that is not a file")
	}
	if sv.F[fWrite].(*Term).isTrue() != ex.valid(ex.b.Eq(sv.F[fPos].(*Term), ex.b.I(1))) {
		ex.unsupported("reading from the end of a file")
	}
	switch c := sv.F[fBuf].(type) {
	case StrV:
		return c.S
	case PtrV:
		return ex.load(c).(BufV).S
	}
	return nil
}
func (p *partEnv) write(v Value, s *Seq) {
	ex := p.ex
	if sv, _, ok := p.fileOf(v); ok {
		bp, ok := sv.F[fBuf].(PtrV)
		if ok && !ex.valid(ex.b.Eq(sv.F[fPos].(*Term), ex.b.I(0))) {
			ex.unsupported("writing after seeking")
		}
		if !ok || !sv.F[fWrite].(*Term).isTrue() {
			ex.failNow("files are written through handles opened for writing", "")
			ex.cut()
		}
		old := ex.load(bp).(BufV)
		ex.store(bp, BufV{ex.cat(old.S, s)})
		return
	}
	if iv, ok := v.(IfaceV); ok {
		if pv, ok := iv.V.(PtrV); ok && pv.O != nil {
			if old, ok := ex.load(pv).(BufV); ok {
				ex.store(pv, BufV{ex.cat(old.S, s)})
				return
			}
		}
	}
	ex.unsupported("writing to something that is not a file")
}

func (p *partEnv) remove(path []tok) {
	ex, b := p.ex, p.ex.b
	if p.D != nil {
		if f, ok := p.part(path); ok {
			ex.assert("only parts of the upload are removed", p.own(f), nil)
			rp := ex.ptrTo(p.rem)
			ex.store(rp, b.Or(ex.load(rp).(*Term), b.Eq(f[3], p.s0)))
			return
		}
	}
	p.file(path).buf.Val = BufV{emptySeq}
}

// ---- library contracts --------------------------------------------------------------

func (p *partEnv) hooks() {
	ex, b := p.ex, p.ex.b
	hook := func(h func(a []Value) Value, names ...string) {
		for _, n := range names {
			ex.hooks[n] = func(ex *Ex, a []Value) (Value, bool) { return h(a), true }
		}
	}
	errOr := func(what string) Value {
		if p.fails(what) {
			return ex.errConst(what)
		}
		return ex.nilErr()
	}
	isPart := func(path []tok) bool {
		if p.D == nil {
			return false
		}
		_, ok := p.part(path)
		return ok
	}
	str8 := types.Typ[types.Uint8]
	hook(func(a []Value) Value { return StrV{ex.strSeq(b.Var("tempdir", US("Str")))} }, "os.TempDir")
	hook(func(a []Value) Value {
		perm := asTerm(ex, a[1])
		if p.tmpl == nil || p.D == nil {
			ex.assert("the directory can be searched and written by its owner", b.Eq(b.BAnd(perm, b.C(perm.S.W, 0700)), b.C(perm.S.W, 0700)), nil)
		}
		if p.fails("mkdir") {
			return ex.errConst("mkdir")
		}
		p.made = append(p.made, ex.strToks(a[0]))
		return ex.nilErr()
	}, "os.MkdirAll")
	hook(func(a []Value) Value {
		path := ex.strToks(a[0])
		if isPart(path) {
			ex.failNow("merging does not change the parts", "a part is written")
			ex.cut()
		}
		s := ex.content(asSlice(ex, a[1]))
		f := p.file(path)
		p.inMade(path)
		if p.fails("write") {
			return ex.errConst("write")
		}
		f.made = true
		f.buf.Val = BufV{s}
		return ex.nilErr()
	}, "io/ioutil.WriteFile", "os.WriteFile")
	hook(func(a []Value) Value {
		fl := asTerm(ex, a[1])
		if !fl.isConst() {
			ex.unsupported("open flags")
		}
		return p.open(a[0], fl.Val)
	}, "os.OpenFile")
	hook(func(a []Value) Value { return p.open(a[0], 0) }, "os.Open")
	hook(func(a []Value) Value { return p.open(a[0], oRdwr|oCreate|oTrunc) }, "os.Create")
	hook(func(a []Value) Value {
		if pv, ok := a[0].(PtrV); ok && pv.O == nil {
			return ex.errConst("invalid")
		}
		return ex.nilErr()
	}, "(*os.File).Close", "(*os.File).Sync")
	hook(func(a []Value) Value { sv, _, _ := p.fileOf(a[0]); return sv.F[fPath] }, "(*os.File).Name")
	hook(func(a []Value) Value {
		var s *Seq
		if st, ok := a[1].(StrV); ok {
			s = st.S
		} else {
			s = ex.content(asSlice(ex, a[1]))
		}
		if p.fails("write") {
			return TupleV{b.I(0), ex.errConst("write")}
		}
		p.write(a[0], s)
		return TupleV{ex.seqLen(s), ex.nilErr()}
	}, "(*os.File).Write", "(*os.File).WriteString")
	hook(func(a []Value) Value {
		off, wh := asTerm(ex, a[1]), asTerm(ex, a[2])
		sv, o, ok := p.fileOf(a[0])
		if !ok || !off.isConst() || off.Val != 0 || !wh.isConst() || wh.Val != 0 {
			ex.unsupported("seeking in a file")
		}
		fs := append([]Value{}, sv.F...)
		if sv.F[fWrite].(*Term).isTrue() {
			fs[fPos] = b.I(1) // back at the beginning
		}
		o.Val = StructV{F: fs}
		return TupleV{b.I(0), ex.nilErr()}
	}, "(*os.File).Seek")
	hook(func(a []Value) Value {
		if p.fails("copy") {
			return TupleV{ex.fresh("copied", BV(64)), ex.errConst("copy")}
		}
		s := p.data(a[1])
		p.write(a[0], s)
		return TupleV{ex.seqLen(s), ex.nilErr()}
	}, "io.Copy", "io.CopyBuffer")
	hook(func(a []Value) Value {
		if p.fails("read") {
			return TupleV{ex.nilSlice(), ex.errConst("read")}
		}
		return TupleV{ex.sliceOf(p.data(a[0]), "read", str8), ex.nilErr()}
	}, "io.ReadAll", "io/ioutil.ReadAll")
	hook(func(a []Value) Value {
		r := p.open(a[0], 0).(TupleV)
		if !r[1].(IfaceV).Nil.isTrue() {
			return TupleV{ex.nilSlice(), r[1]}
		}
		return TupleV{ex.sliceOf(p.data(r[0]), "read", str8), ex.nilErr()}
	}, "os.ReadFile", "io/ioutil.ReadFile")
	hook(func(a []Value) Value {
		path := ex.strToks(a[0])
		if p.dry {
			return TupleV{ex.nilIface(), ex.errConst("notexist")}
		}
		f, ok := p.part(path)
		if p.D == nil || !ok {
			ex.unsupported("the state of something that is not a part")
		}
		if !ex.valid(p.own(f)) {
			ex.failNow("only parts of the upload are looked at", "the state of a part of another upload is read")
			ex.cut()
		}
		p.know(f[3])
		ex.bindFor(f[3], "present")
		if !ex.choose(p.stored(f[3])) {
			return TupleV{ex.nilIface(), ex.errConst("notexist")}
		}
		if p.fails("stat") {
			return TupleV{ex.nilIface(), ex.errConst("stat")}
		}
		return TupleV{p.info(p.rank(f[3])), ex.nilErr()}
	}, "os.Stat", "os.Lstat")
	hook(func(a []Value) Value { p.remove(ex.strToks(a[0])); return ex.nilErr() }, "os.Remove")
	hook(func(a []Value) Value {
		from, to := ex.strToks(a[0]), ex.strToks(a[1])
		if isPart(from) || isPart(to) {
			ex.unsupported("parts are renamed")
		}
		f := p.file(from)
		if p.fails("rename") {
			return ex.errConst("rename")
		}
		p.inMade(to)
		for i, x := range p.files {
			if x != f && ex.valid(ex.tokEq(x.path, to)) {
				p.files = append(append([]*ghostFile{}, p.files[:i]...), p.files[i+1:]...)
				break
			}
		}
		f.path = to
		return ex.nilErr()
	}, "os.Rename")
	hook(func(a []Value) Value {
		iv := a[0].(IfaceV)
		if iv.Id == nil {
			ex.unsupported("IsNotExist of an unknown error")
		}
		return b.And(b.Not(iv.Nil), b.Eq(iv.Id, ex.errConst("notexist").Id))
	}, "os.IsNotExist")
	hook(func(a []Value) Value { return errOr("chmod") }, "os.Chmod")
	// directories
	hook(func(a []Value) Value {
		return p.walk(a[0], func(path, info, err Value) Value {
			return ex.callValue(a[1], []Value{path, info, err}, "walk")
		})
	}, "path/filepath.Walk", "path/filepath.WalkDir")
	readDir := func(a []Value) Value {
		rt := ex.strToks(a[0])
		if p.dry {
			return TupleV{ex.nilSlice(), ex.errConst("notexist")}
		}
		if p.D == nil {
			ex.unsupported("a directory is listed outside IsFull and Merge")
		}
		f, _ := p.ent(b.I(0))
		path := p.partPath(f[0], f[1], f[2], f[3])
		if lastTok(path, '/') != len(rt) {
			ex.failNow("the directory that Write stores parts in is walked", "another directory is listed")
			ex.cut()
		}
		switch ex.chooseN(3) {
		case 0:
			ex.assume(b.Eq(p.nd, b.I(0)))
			return TupleV{ex.nilSlice(), ex.errConst("notexist")}
		case 1:
			p.failed = true
			return TupleV{ex.nilSlice(), ex.errConst("unreadable")}
		}
		p.root(rt)
		return TupleV{ex.sliceOf(ex.win(listBase{p.D}, b.I(0), p.nd), "entries", nil), ex.nilErr()}
	}
	hook(readDir, "io/ioutil.ReadDir", "os.ReadDir")
	entry := func(v Value) *dirEntry { return v.(OpqV).Data.(*dirEntry) }
	hook(func(a []Value) Value {
		e := entry(a[0])
		if e.j == nil {
			return ex.untok(e.dir[lastTok(e.dir, '/')+1:])
		}
		f, _ := p.ent(e.j)
		full := p.partPath(f[0], f[1], f[2], f[3])
		path := p.entryPath(full[:lastTok(full, '/')], e.j)
		return ex.untok(path[lastTok(path, '/')+1:])
	}, "opq:fileinfo.Name")
	hook(func(a []Value) Value { return b.Bool(entry(a[0]).j == nil) }, "opq:fileinfo.IsDir")
	// texts
	hook(func(a []Value) Value {
		ts := ex.strToks(a[0])
		i, j := lastTok(ts, '.'), lastTok(ts, '/')
		if i < 0 || i < j {
			return StrV{emptySeq}
		}
		return ex.untok(ts[i:])
	}, "path/filepath.Ext", "path.Ext")
	hook(func(a []Value) Value {
		ts := ex.strToks(a[0])
		return ex.untok(ts[lastTok(ts, '/')+1:])
	}, "path/filepath.Base", "path.Base")
	hook(func(a []Value) Value {
		ts := ex.strToks(a[0])
		return ex.untok(ts[:lastTok(ts, '/')])
	}, "path/filepath.Dir", "path.Dir")
	hook(func(a []Value) Value {
		vs, ok := ex.content(asSlice(ex, a[0])).concrete()
		if !ok {
			ex.unsupported("filepath.Join of an unknown list")
		}
		s := emptySeq
		for i, v := range vs {
			if i > 0 {
				s = ex.cat(s, ex.bytesSeq("/"))
			}
			s = ex.cat(s, v.(StrV).S)
		}
		return StrV{s}
	}, "path/filepath.Join", "path.Join")
	split := func(n int) func(a []Value) Value {
		return func(a []Value) Value {
			ts := ex.strToks(a[0])
			sep, ok := ex.constText(a[1])
			if !ok || len(sep) != 1 || sep[0] >= '0' && sep[0] <= '9' {
				ex.unsupported("strings.Split at another separator")
			}
			lim := -1
			if n == 3 {
				l := asTerm(ex, a[2])
				if !l.isConst() || l.sval() == 0 {
					ex.unsupported("strings.SplitN")
				}
				lim = int(l.sval())
			}
			var out []Value
			cur := []tok{}
			for _, t := range ts {
				if t.c == sep[0] && (lim < 0 || len(out) < lim-1) {
					out = append(out, ex.untok(cur))
					cur = []tok{}
				} else {
					cur = append(cur, t)
				}
			}
			out = append(out, ex.untok(cur))
			return ex.sliceOf(elems(out...), "split", types.Typ[types.String])
		}
	}
	hook(split(2), "strings.Split")
	hook(split(3), "strings.SplitN")
	// affix: the text begins (ends) with the other; what is left
	affix := func(a []Value, end bool) (*Term, []tok) {
		ts, ps := ex.strToks(a[0]), ex.strToks(a[1])
		if len(ps) == 0 {
			return b.T, ts
		}
		if len(ps) > len(ts) {
			return b.F, ts
		}
		part, rest := ts[:len(ps)], ts[len(ps):]
		edge := ps[len(ps)-1]
		if end {
			part, rest = ts[len(ts)-len(ps):], ts[:len(ts)-len(ps)]
			edge = ps[0]
		}
		c := ex.tokEq(part, ps)
		if edge.c == 0 { // the number may go on in the text
			return b.Or(c, ex.fresh("affix", BoolS)), nil
		}
		return c, rest
	}
	hook(func(a []Value) Value { c, _ := affix(a, false); return c }, "strings.HasPrefix")
	hook(func(a []Value) Value { c, _ := affix(a, true); return c }, "strings.HasSuffix")
	trim := func(end bool) func(a []Value) Value {
		return func(a []Value) Value {
			c, rest := affix(a, end)
			if rest == nil {
				ex.unsupported("trimming inside a number")
			}
			if ex.choose(c) {
				return ex.untok(rest)
			}
			return a[0]
		}
	}
	hook(trim(false), "strings.TrimPrefix")
	hook(trim(true), "strings.TrimSuffix")
	index := func(last bool) func(a []Value) Value {
		return func(a []Value) Value {
			ts := ex.strToks(a[0])
			c := byte(0)
			if t, ok := a[1].(*Term); ok && t.isConst() {
				c = byte(t.Val)
			} else if s, ok := ex.constText(a[1]); ok && len(s) == 1 {
				c = s[0]
			}
			if c == 0 || c >= '0' && c <= '9' {
				ex.unsupported("position of a text")
			}
			at := -1
			for i, t := range ts {
				if t.c == c {
					at = i
					if !last {
						break
					}
				}
			}
			if at < 0 {
				return b.I(-1)
			}
			return ex.seqLen(ex.untok(ts[:at]).S)
		}
	}
	hook(index(false), "strings.Index", "strings.IndexByte")
	hook(index(true), "strings.LastIndex", "strings.LastIndexByte")
	parse := func(bits uint64, signed bool, v Value) Value {
		ts := ex.strToks(v)
		bad := TupleV{b.I(0), ex.errConst("parse")}
		if len(ts) != 1 || ts[0].num == nil && ts[0].lit == "" {
			if signed && len(ts) == 2 && (ts[0].c == '-' || ts[0].c == '+') {
				ex.unsupported("a number with a sign")
			}
			return bad
		}
		if ts[0].num == nil {
			ex.unsupported("a number with leading zeros")
		}
		t := ts[0].num
		if bits == 0 {
			bits = 64
		}
		if signed {
			bits--
		}
		if bits < 64 && !ex.choose(b.ULt(t, b.C(64, 1<<bits))) {
			return TupleV{b.C(64, 1<<bits-1), ex.errConst("range")}
		}
		return TupleV{t, ex.nilErr()}
	}
	hook(func(a []Value) Value { return parse(64, true, a[0]) }, "strconv.Atoi")
	width := func(a []Value) uint64 {
		ex.base10(a[1])
		n := asTerm(ex, a[2])
		if !n.isConst() {
			ex.unsupported("number text of unknown width")
		}
		return n.Val
	}
	hook(func(a []Value) Value { return parse(width(a), false, a[0]) }, "strconv.ParseUint")
	hook(func(a []Value) Value { return parse(width(a), true, a[0]) }, "strconv.ParseInt")
	hook(func(a []Value) Value { ex.base10(a[1]); return ex.formatUint(asTerm(ex, a[0])) }, "strconv.FormatInt", "strconv.FormatUint")
	hook(func(a []Value) Value {
		ts := ex.strToks(a[0])
		format, ok := ex.constText(a[1])
		dst, ok2 := ex.content(asSlice(ex, a[2])).concrete()
		if !ok || !ok2 {
			ex.unsupported("fmt.Sscanf")
		}
		n := 0
		for i := 0; i < len(format); i++ {
			if len(ts) == 0 {
				return TupleV{b.I(int64(n)), ex.errConst("scan")}
			}
			c := format[i]
			if c != '%' {
				if c >= '0' && c <= '9' || c == ' ' || c == '\n' {
					ex.unsupported("fmt.Sscanf format")
				}
				if ts[0].c != c {
					return TupleV{b.I(int64(n)), ex.errConst("scan")}
				}
				ts = ts[1:]
				continue
			}
			if i++; i >= len(format) || format[i] != 'd' || n >= len(dst) {
				ex.unsupported("fmt.Sscanf format")
			}
			iv, ok := dst[n].(IfaceV)
			if !ok || ts[0].lit != "" || ts[0].c == '-' || ts[0].c == '+' || ts[0].opq != nil {
				ex.unsupported("fmt.Sscanf of this text")
			}
			if ts[0].num == nil {
				return TupleV{b.I(int64(n)), ex.errConst("scan")}
			}
			pt, ok := iv.T.Underlying().(*types.Pointer)
			if !ok {
				ex.unsupported("fmt.Sscanf target")
			}
			w, signed := ex.intWidth(pt.Elem())
			if w == 0 {
				ex.unsupported("fmt.Sscanf target")
			}
			bits := w
			if signed {
				bits--
			}
			if bits < 64 && !ex.choose(b.ULt(ts[0].num, b.C(64, 1<<uint(bits)))) {
				return TupleV{b.I(int64(n)), ex.errConst("scan")}
			}
			v := ts[0].num
			if w < 64 {
				v = b.Extract(w-1, 0, v)
			}
			ex.store(iv.V.(PtrV), v)
			ts = ts[1:]
			n++
		}
		if n != len(dst) {
			return TupleV{b.I(int64(n)), ex.errConst("scan")}
		}
		return TupleV{b.I(int64(n)), ex.nilErr()}
	}, "fmt.Sscanf")
	hook(func(a []Value) Value { p.sort(a[0], nil); return nil }, "sort.Sort", "sort.Stable")
	hook(func(a []Value) Value { p.sort(a[0], a[1]); return nil }, "sort.Slice", "sort.SliceStable")
}

// root: the entries listed lie in this directory.
func (p *partEnv) root(rt []tok) {
	old := p.D.Elem
	p.D.Elem = func(ex *Ex, j *Term) Value {
		f, _ := p.ent(j)
		path := p.partPath(f[0], f[1], f[2], f[3])
		ex.assume(ex.tokEq(path[:len(rt)], rt))
		p.isOwn(j)
		return old(ex, j)
	}
}

// sort: the slice is put in the order of its part numbers.
func (p *partEnv) sort(v, less Value) {
	ex, b := p.ex, p.ex.b
	iv, ok := v.(IfaceV)
	if !ok {
		ex.unsupported("sorting")
	}
	sl, ok := iv.V.(SliceV)
	if !ok {
		ex.unsupported("sorting something that is not a slice")
	}
	c := ex.content(sl)
	if n := ex.seqLen(c); n.isConst() && n.Val <= 1 {
		return
	}
	if len(c.Segs) != 1 {
		ex.unsupported("sorting a slice of unknown content")
	}
	kb, ok := c.Segs[0].B.(*keptBase)
	if !ok || kb.l != p.D || kb.v != 0 {
		ex.unsupported("sorting a slice of unknown content")
	}
	n := c.Segs[0].N
	method := func(name string, args ...Value) Value {
		fn := p.w.Prog.LookupMethod(iv.T, p.w.Pkgs["go808"].Pkg, name)
		if fn == nil {
			ex.unsupported("sort: no " + name)
		}
		return ex.callFn(fn, append([]Value{iv.V}, args...), nil, "sort")
	}
	i, j := ex.fresh("i", BV(64)), ex.fresh("j", BV(64))
	if ex.choose(b.And(b.SLe(b.I(0), i), b.SLt(i, n), b.SLe(b.I(0), j), b.SLt(j, n), b.Ne(i, j))) {
		fi, _ := p.ent(p.D.idx(ex, 0, i))
		fj, _ := p.ent(p.D.idx(ex, 0, j))
		x, y := kb.At(ex, i), kb.At(ex, j)
		var r Value
		if less == nil {
			ex.assertEq("sorting: the number of parts", method("Len"), n)
			r = method("Less", i, j)
		} else {
			r = ex.callValue(less, []Value{i, j}, "sort")
		}
		// different elements are different parts
		ex.assume(b.Ne(fi[3], fj[3]))
		ex.assertEq("sorting: parts are ordered by their number", r, b.ULt(fi[3], fj[3]))
		if less == nil && ex.chooseN(2) == 0 {
			method("Swap", i, j)
			now := ex.content(sl)
			ex.assertEq("sorting: parts are exchanged", ex.seqAt(now, i), y)
			ex.assertEq("sorting: parts are exchanged", ex.seqAt(now, j), x)
			ex.cut()
		}
	}
	o := sl.Arr.O
	if o == nil || len(sl.Arr.Path) > 0 || !ex.valid(b.Eq(sl.Off, b.I(0))) || !ex.valid(b.Eq(ex.seqLen(o.Val.(*Seq)), n)) {
		ex.unsupported("sorting part of an array")
	}
	ex.assume(b.Eq(n, p.total()))
	o.Val = ex.win(&sortedBase{p: p, tmpl: kb.tmpl, kv: kb.kv, key: "sorted:" + kb.key}, b.I(0), n)
}

type sortedBase struct {
	p    *partEnv
	tmpl Value
	kv   *Term
	key  string
}

func (s *sortedBase) Key() string { return s.key }
func (s *sortedBase) At(ex *Ex, i *Term) Value {
	return s.p.at(s.tmpl, s.kv, ex.b.Extract(15, 0, ex.b.Add(i, ex.b.I(1))))
}

// ---- roots ---------------------------------------------------------------------------

func partJobs(w *World) []job {
	var js []job
	if w.namedIn("go808", "MultipartFile") == nil {
		return nil
	}
	js = append(js, job{"parts:Write", func(w *World, e *Engine) {
		e.Explore(func(ex *Ex) {
			b := ex.b
			p := newPartEnv(w, ex)
			p.capture()
			p.failed = false
			seq := b.Var("seq", BV(16))
			text := b.Var("data", US("Str"))
			ex.addInput("data", text)
			data := ex.freshSlice(ex.strSeq(text), "data")
			r := p.call("Write", p.upload(p.icc, p.msg, p.tag, p.sum), seq, data).(IfaceV)
			if p.failed {
				ex.assert("a failure to store is reported", b.Not(r.Nil), nil)
				return
			}
			ex.assert("storing succeeds", r.Nil, nil)
			want := p.partPath(p.icc, p.msg, p.tag, seq)
			n := 0
			for _, f := range p.files {
				if !f.made {
					continue
				}
				n++
				ex.assert("a part is stored under its own name", ex.tokEq(f.path, want), nil)
				ex.assertEq("a stored part has the data", StrV{f.buf.Val.(BufV).S}, StrV{ex.strSeq(text)})
			}
			ex.assert("a part is stored in one file", b.Bool(n == 1), nil)
			ex.assertEq("the data are left alone", StrV{ex.content(data)}, StrV{ex.strSeq(text)})
			// different parts have different files
			q := [4]*Term{b.Var("o.icc", BV(64)), b.Var("o.msg", BV(16)), b.Var("o.tag", BV(32)), b.Var("o.seq", BV(16))}
			same := b.And(b.Eq(q[0], p.icc), b.Eq(q[1], p.msg), b.Eq(q[2], p.tag), b.Eq(q[3], seq))
			ex.assert("different parts are stored in different files", b.Implies(ex.tokEq(p.partPath(q[0], q[1], q[2], q[3]), want), same), nil)
		})
	}})
	js = append(js, job{"parts:IsFull", func(w *World, e *Engine) {
		e.Explore(func(ex *Ex) {
			b := ex.b
			p := newPartEnv(w, ex)
			p.capture()
			p.captureMerge()
			p.failed = false
			p.setup()
			r, ok := p.call("IsFull", p.self).(*Term)
			if !ok {
				ex.unsupported("result of IsFull")
			}
			ex.assert("complete only when every part is stored", b.Implies(r, p.full()), nil)
			if !p.failed {
				ex.assert("complete when every part is stored", b.Implies(p.full(), r), nil)
			}
		})
	}})
	js = append(js, job{"parts:Merge", func(w *World, e *Engine) {
		e.Explore(func(ex *Ex) {
			b := ex.b
			p := newPartEnv(w, ex)
			p.capture()
			p.captureMerge()
			p.failed = false
			p.setup()
			ex.assume(p.full())
			r, ok := p.call("Merge", p.self).(TupleV)
			if !ok {
				ex.unsupported("result of Merge")
			}
			err := r[1].(IfaceV)
			if !ex.choose(err.Nil) {
				ex.assert("merging a complete upload succeeds", b.Bool(p.failed), nil)
				return
			}
			sv, _, ok := p.fileOf(r[0])
			if !ok {
				ex.unsupported("Merge returns something that is not a file")
			}
			_ = sv
			want := ex.mkSeq(Seg{Fl: p.R.Flat, From: b.I(0), To: b.Zext(64, p.sum)})
			ex.assertEq("merging yields the parts in order", StrV{p.data(r[0])}, StrV{want})
			if !p.failed && ex.choose(b.ULt(b.C(16, 0), p.sum)) {
				ex.assert("merged parts do not count towards a later upload", ex.load(ex.ptrTo(p.rem)).(*Term), nil)
			}
			// nothing is left but what the directory may hold
			o := [4]*Term{b.Var("o.icc", BV(64)), b.Var("o.msg", BV(16)), b.Var("o.tag", BV(32)), b.Var("o.sum", BV(16))}
			same := b.And(b.Eq(o[0], p.icc), b.Eq(o[1], p.msg), b.Eq(o[2], p.tag))
			for _, f := range p.files {
				if !f.made {
					continue
				}
				known := false
				for i := range p.left {
					known = known || ex.valid(ex.tokEq(f.path, p.leftPath(i, p.icc, p.msg, p.tag, p.sum)))
					c := ex.tokEq(f.path, p.leftPath(i, o[0], o[1], o[2], o[3]))
					ex.assert("different uploads are merged into different files", b.Implies(c, same), nil)
				}
				if !known {
					ex.unsupported("the merged file of an upload of no parts has another name")
				}
			}
		})
	}})
	return js
}
