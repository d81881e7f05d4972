package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Symbolic meaning of the layouts: input values, wire image, parser.

type specDB struct {
	lay   map[string]*Layout
	order []*Layout
	pkg   *types.Package
	xpkg  *types.Package
}

func (db *specDB) named(name string) *types.Named {
	return db.pkg.Scope().Lookup(name).Type().(*types.Named)
}
func fieldIndex(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	// an unexported field under another name: the only one of that type
	want, ok := map[string]string{"id": "uint32", "serialized": "[]byte"}[name]
	at := -1
	for i := 0; ok && i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == want {
			if at >= 0 {
				return -1
			}
			at = i
		}
	}
	return at
}
func fieldType(t types.Type, i int) types.Type { return t.Underlying().(*types.Struct).Field(i).Type() }

// ---- leaves ---------------------------------------------------------------

type scope struct {
	path string
	j    []*Term
}

func (sc scope) leaf(ex *Ex, name string, s Sort) *Term {
	n := "in:" + sc.path + "." + name
	if len(sc.j) == 0 {
		t := ex.b.Var(n, s)
		ex.addInput(n, t)
		return t
	}
	return ex.b.App(n, s, sc.j...)
}
func (ex *Ex) addInput(n string, t *Term) {
	for _, i := range ex.inputs {
		if i.T == t {
			return
		}
	}
	ex.inputs = append(ex.inputs, namedTerm{n, t})
}

func (ex *Ex) noNUL(t *Term) {
	ex.assume(ex.b.Eq(ex.b.App("ixb", BV(64), t, ex.b.C(8, 0)), ex.b.I(-1)))
}

// wsize: number of bytes of u8/u16/u32
func wsize(op string) int {
	switch op {
	case "u8":
		return 1
	case "u16":
		return 2
	case "u32":
		return 4
	}
	return 0
}

// mkInput builds an arbitrary representable value of a layout type.
func (db *specDB) mkInput(ex *Ex, lay *Layout, sc scope) StructV {
	nt := db.named(lay.Name)
	v := ex.zero(nt).(StructV)
	fs := append([]Value{}, v.F...)
	sv := StructV{F: fs}
	db.fillInput(ex, lay.Nodes, nt, sv, sc, false)
	db.geoDomain(ex, lay, nt, sv)
	return sv
}

// geoDomain: a set hemisphere flag means no coordinate of that axis is positive.
func (db *specDB) geoDomain(ex *Ex, lay *Layout, nt types.Type, sv StructV) {
	b := ex.b
	byFlag := map[string][]*Term{}
	for _, n := range lay.Nodes {
		if n.Op != "geo" || strings.HasPrefix(n.Flag, "^") {
			continue
		}
		num := sv.F[fieldIndex(nt, n.Field)].(DecV).Num
		fl := sv.F[fieldIndex(nt, n.Flag)].(*Term)
		bit := b.Eq(b.Extract(n.Bit, n.Bit, fl), b.C(1, 1))
		ex.assume(b.Implies(bit, b.SLe(num, b.I(0))))
		k := fmt.Sprint(n.Flag, n.Bit)
		for _, o := range byFlag[k] {
			ex.assume(b.Implies(b.SLt(o, b.I(0)), b.SLe(num, b.I(0))))
			ex.assume(b.Implies(b.SLt(num, b.I(0)), b.SLe(o, b.I(0))))
		}
		byFlag[k] = append(byFlag[k], num)
	}
}

func (db *specDB) fillInput(ex *Ex, nodes []*Node, nt types.Type, sv StructV, sc scope, ptr bool) {
	b := ex.b
	str := func(name string, max int64, gb bool) *Term {
		t := sc.leaf(ex, name, US("Str"))
		ex.noNUL(t)
		if gb {
			ex.assume(b.App("gbok", BoolS, t))
			ex.assume(b.App("gbrt", BoolS, t))
			e := ex.seqLen(ex.gbEnc(ex.strSeq(t)))
			if max >= 0 {
				ex.assume(b.SLe(e, b.I(max)))
			}
		} else if max >= 0 {
			ex.assume(b.SLe(ex.slen(t), b.I(max)))
		}
		return t
	}
	for _, n := range nodes {
		fi := -1
		if n.Field != "" {
			fi = fieldIndex(nt, n.Field)
			if fi < 0 {
				ex.unsupported("no field " + n.Field + " in " + nt.String())
			}
		}
		set := func(v Value) {
			if ptr {
				p := ex.ptrNew("in:"+sc.path+"."+n.Field, v)
				sv.F[fi] = p
				return
			}
			sv.F[fi] = v
		}
		switch n.Op {
		case "u8", "u16", "u32":
			w := wsize(n.Op) * 8
			t := sc.leaf(ex, n.Field, BV(w))
			ft := fieldType(nt, fi)
			if !ptr {
				if fw, _ := ex.intWidth(ft); fw > w { // e.g. MsgID kept wider
					set(b.Zext(fw, t))
					break
				}
			}
			set(t)
		case "str":
			set(StrV{ex.strSeq(str(n.Field, int64(n.N), false))})
		case "str8":
			set(StrV{ex.strSeq(str(n.Field, 255, false))})
		case "gb":
			set(StrV{ex.strSeq(str(n.Field, int64(n.N), true))})
		case "gb8":
			set(StrV{ex.strSeq(str(n.Field, 255, true))})
		case "gb16":
			set(StrV{ex.strSeq(str(n.Field, 65535, true))})
		case "gbrest":
			set(StrV{ex.strSeq(str(n.Field, -1, true))})
		case "gbrest1":
			t := str(n.Field, -1, true)
			ex.assume(b.SLt(b.I(0), ex.slen(t)))
			set(StrV{ex.strSeq(t)})
		case "rest", "bytes8", "gzip32":
			t := sc.leaf(ex, n.Field, US("Str"))
			if n.Op == "bytes8" {
				ex.assume(b.SLe(ex.slen(t), b.I(255)))
			}
			s := ex.freshSlice(ex.strSeq(t), "in:"+sc.path+"."+n.Field)
			set(s)
		case "raw":
			t := sc.leaf(ex, n.Field, US("Str"))
			ex.assume(b.Eq(ex.slen(t), b.I(int64(n.N))))
			var vs []Value
			for i := 0; i < n.N; i++ {
				vs = append(vs, b.App("at", BV(8), t, b.I(int64(i))))
			}
			set(elems(vs...))
		case "bcd":
			k := ex.chooseN(2*n.N + 1)
			var vs []Value
			for i := 0; i < k; i++ {
				d := sc.leaf(ex, fmt.Sprintf("%s[%d]", n.Field, i), BV(8))
				ex.assume(ex.isDigit(d))
				if i == 0 {
					ex.assume(b.Ne(d, b.C(8, '0')))
				}
				vs = append(vs, d)
			}
			set(StrV{elems(vs...)})
		case "time":
			sec := sc.leaf(ex, n.Field, BV(64))
			ex.assume(ex.repTime(sec))
			set(TimeV{Sec: sec})
		case "date4":
			sec := sc.leaf(ex, n.Field, BV(64))
			ex.assume(b.App("in4digits", BoolS, sec))
			ex.assume(b.App("midnight", BoolS, sec))
			set(TimeV{Sec: sec})
		case "dur5":
			// hh:mm:ss.mmm as digit witnesses
			r := b.I(0)
			for _, p := range []struct {
				nm   string
				max  uint64
				unit uint64
			}{{"h", 23, 3600e9}, {"m", 59, 60e9}, {"s", 59, 1e9}, {"ms", 999, 1e6}} {
				t := sc.leaf(ex, n.Field+"."+p.nm, BV(64))
				ex.assume(b.ULe(t, b.C(64, p.max)))
				r = b.Add(r, b.Mul(t, b.C(64, p.unit)))
			}
			set(r)
		case "geo":
			t := sc.leaf(ex, n.Field, BV(64))
			lim := b.I(1<<32 - 1)
			ex.assume(b.And(b.SLe(t, lim), b.SLe(b.Neg(lim), t)))
			set(DecV{Num: t, Exp: -6})
		case "if":
			if ex.choose(db.bit(ex, nt, sv, n)) {
				db.fillInput(ex, n.Sub, nt, sv, sc, false)
			}
		case "opt":
			present := ex.choose(b.Eq(sc.leaf(ex, fmt.Sprintf("opt%d", n.Bit), BV(1)), b.C(1, 1)))
			if present {
				db.fillInput(ex, n.Sub, nt, sv, sc, true)
			}
		case "list8", "list16", "listrest", "optlist8", "items":
			l := db.inList(ex, n, nt, fi, sv, sc)
			s := ex.sliceOf(ex.win(listBase{l}, b.I(0), l.N), "in:"+sc.path+"."+n.Field, fieldType(nt, fi).Underlying().(*types.Slice).Elem())
			s.Nil = ex.b.And(b.Eq(l.N, b.I(0)), b.Var("nil:"+sc.path+n.Field, BoolS))
			set(s)
		case "count16":
		case "embed", "embed28":
			e := db.in200(ex, scope{sc.path + "." + n.Field, sc.j}, n.Op == "embed28")
			set(e)
		case "extras":
			l := db.inExtras(ex, scope{sc.path + "." + n.Field, sc.j})
			s := ex.sliceOf(ex.win(listBase{l}, b.I(0), l.N), "in:"+sc.path+"."+n.Field, fieldType(nt, fi).Underlying().(*types.Slice).Elem())
			set(s)
		case "packet":
			t := sc.leaf(ex, n.Field, US("Str"))
			nl := ex.choose(b.Eq(sc.leaf(ex, n.Field+".nil", BV(1)), b.C(1, 1)))
			if nl {
				set(ex.nilIface())
			} else {
				set(IfaceV{Nil: b.F, Id: b.C(32, 77), V: OpqV{Kind: "reader", Data: t}})
			}
		case "rsakey":
			t := sc.leaf(ex, n.Field, US("Str"))
			ex.assume(b.Eq(ex.slen(t), b.I(128)))
			ex.assume(b.Ne(b.App("at", BV(8), t, b.I(0)), b.C(8, 0)))
			e := sc.leaf(ex, n.Field+".E", BV(32))
			ex.assume(b.ULt(e, b.C(32, 1<<31)))
			big := ex.ptrNew("bigN", OpqV{Kind: "big", Data: bigV{ex.strSeq(t)}})
			set(ex.ptrNew("pubkey", StructV{F: []Value{big, b.Zext(64, e)}}))
		default:
			ex.unsupported("layout node " + n.Op)
		}
	}
}

func (db *specDB) bit(ex *Ex, nt types.Type, sv StructV, n *Node) *Term {
	f := sv.F[fieldIndex(nt, n.Flag)].(*Term)
	return ex.b.Eq(ex.b.Extract(n.Bit, n.Bit, f), ex.b.C(1, 1))
}

// in200 is an arbitrary embedded location report.
func (db *specDB) in200(ex *Ex, sc scope, noExtras bool) StructV {
	b := ex.b
	lay := db.lay["T808_0x0200"]
	nt := db.named("T808_0x0200")
	sv := StructV{F: append([]Value{}, ex.zero(nt).(StructV).F...)}
	for _, n := range lay.Nodes {
		if n.Op == "extras" {
			continue
		}
		db.fillInput(ex, []*Node{n}, nt, sv, sc, false)
	}
	db.geoDomain(ex, lay, nt, sv)
	if !noExtras {
		fi := fieldIndex(nt, "Extras")
		l := db.inExtras(ex, scope{sc.path + ".Extras", sc.j})
		sv.F[fi] = ex.sliceOf(ex.win(listBase{l}, b.I(0), l.N), "in:"+sc.path+".Extras", fieldType(nt, fi).Underlying().(*types.Slice).Elem())
	}
	return sv
}

// elemOf describes list elements.
func (db *specDB) elemInput(ex *Ex, elem string, sc scope) Value {
	switch {
	case wsize(elem) > 0:
		return sc.leaf(ex, "v", BV(8*wsize(elem)))
	case strings.HasPrefix(elem, "embed16:"):
		v := db.in200(ex, sc, false)
		ex.assume(ex.b.SLe(ex.seqLen(db.wire200(ex, v)), ex.b.I(65535)))
		return v
	case strings.HasPrefix(elem, "*"):
		v := db.mkInput(ex, db.lay[elem[1:]], sc)
		return ex.ptrNew("in:"+sc.path, v)
	}
	return db.mkInput(ex, db.lay[elem], sc)
}

func keyOf(js []*Term) string {
	s := ""
	for _, j := range js {
		s += fmt.Sprintf(",%d", j.ID)
	}
	return s
}

func (db *specDB) inList(ex *Ex, n *Node, nt types.Type, fi int, sv StructV, sc scope) *SpecList {
	b := ex.b
	path := sc.path + "." + n.Field
	N := scope{path, sc.j}.leaf(ex, "len", BV(64))
	max := int64(255)
	if n.Op == "list16" || n.Op == "items" {
		max = 65535
	}
	if n.Op == "listrest" {
		max = 1 << 30
	}
	ex.assume(b.And(b.SLe(b.I(0), N), b.SLe(N, b.I(max))))
	l := &SpecList{Key: "in:" + path + keyOf(sc.j), N: N}
	l.Elem = func(ex *Ex, j *Term) Value {
		k := fmt.Sprintf("%s[%d]", l.Key, j.ID)
		if v, ok := ex.memo[k]; ok {
			return v
		}
		v := db.elemInput(ex, n.Elem, scope{path + "[]", append(append([]*Term{}, sc.j...), j)})
		ex.memo[k] = v
		if n.Elem == "Vertex" {
			db.vertexAxioms(ex, l, v.(StructV), j)
		}
		return v
	}
	l.Flat = &elemFlat{db: db, l: l, elem: n.Elem}
	l.Unfold = func(ex *Ex, k *Term) int {
		if ex.choose(b.SLt(k, N)) {
			l.Elem(ex, k)
			return 1
		}
		ex.assume(b.Eq(k, N))
		return 0
	}
	if n.Elem == "Vertex" {
		l.Forms = append(l.Forms, func(ex *Ex, init Value, k *Term) (Value, bool) {
			t, ok := init.(*Term)
			if !ok || t.S.W != 16 {
				return nil, false
			}
			return b.BOr(t, db.vertexFlags(ex, l, k)), true
		}, func(ex *Ex, init Value, k *Term) (Value, bool) {
			s, ok := init.(SliceV)
			if !ok {
				return nil, false
			}
			sl := &SpecList{Key: l.Key + "*1e6", Elem: func(ex *Ex, j *Term) Value {
				v := l.Elem(ex, j).(StructV)
				x, y := v.F[0].(DecV), v.F[1].(DecV)
				return StructV{F: []Value{DecV{Num: x.Num, Exp: 0}, DecV{Num: y.Num, Exp: 0}}}
			}}
			r := ex.sliceOf(ex.cat(ex.content(s), ex.win(listBase{sl}, b.I(0), k)), "scaled", nil)
			r.Nil = s.Nil
			return r, true
		})
	}
	ex.lists = append(ex.lists, l)
	return l
}
func (db *specDB) vertexFlags(ex *Ex, l *SpecList, k *Term) *Term {
	b := ex.b
	nl, ng := b.App("neglat:"+l.Key, BoolS, k), b.App("neglng:"+l.Key, BoolS, k)
	ex.assume(b.Not(b.App("neglat:"+l.Key, BoolS, b.I(0))))
	ex.assume(b.Not(b.App("neglng:"+l.Key, BoolS, b.I(0))))
	return b.BOr(b.Ite(nl, b.C(16, 64), b.C(16, 0)), b.Ite(ng, b.C(16, 128), b.C(16, 0)))
}
func (db *specDB) vertexAxioms(ex *Ex, l *SpecList, v StructV, j *Term) {
	b := ex.b
	j1 := b.Add(j, b.I(1))
	for i, nm := range []string{"neglat:", "neglng:"} {
		ex.assume(b.Eq(b.App(nm+l.Key, BoolS, j1), b.Or(b.App(nm+l.Key, BoolS, j), b.SLt(v.F[i].(DecV).Num, b.I(0)))))
	}
}

// inExtras: a list of unknown extras (interface values).
func (db *specDB) inExtras(ex *Ex, sc scope) *SpecList {
	b := ex.b
	N := sc.leaf(ex, "len", BV(64))
	ex.assume(b.And(b.SLe(b.I(0), N), b.SLe(N, b.I(1<<20))))
	l := &SpecList{Key: "in:" + sc.path + keyOf(sc.j), N: N}
	l.Elem = func(ex *Ex, j *Term) Value {
		js := append(append([]*Term{}, sc.j...), j)
		id := b.App("in:"+sc.path+".id", BV(32), js...)
		nl := b.App("in:"+sc.path+".nil", BoolS, js...)
		ex.assume(b.SLe(ex.slen(b.App("xdata", US("Str"), id)), b.I(255)))
		return IfaceV{Nil: nl, Id: id}
	}
	l.Flat = &extraFlat{l}
	l.Unfold = func(ex *Ex, k *Term) int {
		if ex.choose(b.SLt(k, N)) {
			return 1
		}
		ex.assume(b.Eq(k, N))
		return 0
	}
	ex.lists = append(ex.lists, l)
	return l
}

type extraFlat struct{ l *SpecList }

func (f *extraFlat) Key() string { return "x" + f.l.Key }
func (f *extraFlat) Expand(ex *Ex, j *Term) *Seq {
	b := ex.b
	iv := f.l.Elem(ex, j).(IfaceV)
	if ex.choose(iv.Nil) || ex.choose(b.App("typednil", BoolS, iv.Id)) {
		return emptySeq
	}
	d := b.App("xdata", US("Str"), iv.Id)
	return ex.cat(elems(b.App("xidb", BV(8), iv.Id), b.Extract(7, 0, ex.slen(d))), ex.strSeq(d))
}
func (f *extraFlat) Len(ex *Ex, from, to *Term) *Term { return flatLen(ex, f.Key(), from, to) }
func flatLen(ex *Ex, key string, from, to *Term) *Term {
	b := ex.b
	l := func(k *Term) *Term {
		t := b.App("flen:"+key, BV(64), k)
		kk := fmt.Sprintf("flen%d", t.ID)
		if !ex.seen[kk] {
			ex.seen[kk] = true
			ex.assume(b.And(b.SLe(b.I(0), t), b.SLe(t, b.I(1<<40))))
		}
		return t
	}
	ex.assume(b.Eq(l(b.I(0)), b.I(0)))
	d := b.Sub(l(to), l(from))
	ex.assume(b.SLe(b.I(0), d))
	return d
}

type elemFlat struct {
	db   *specDB
	l    *SpecList
	elem string
}

func (f *elemFlat) Key() string                      { return "e" + f.l.Key }
func (f *elemFlat) Expand(ex *Ex, j *Term) *Seq      { return f.db.elemWire(ex, f.elem, f.l.Elem(ex, j)) }
func (f *elemFlat) Len(ex *Ex, from, to *Term) *Term { return flatLen(ex, f.Key(), from, to) }

// ---- wire image --------------------------------------------------------------

func (db *specDB) elemWire(ex *Ex, elem string, v Value) *Seq {
	switch {
	case wsize(elem) > 0:
		return ex.beBytes(v.(*Term))
	case strings.HasPrefix(elem, "embed16:"):
		e := db.wire200(ex, v.(StructV))
		return ex.cat(ex.beBytes(ex.b.Extract(15, 0, ex.seqLen(e))), e)
	case strings.HasPrefix(elem, "*"):
		p := v.(PtrV)
		return db.wire(ex, db.lay[elem[1:]], p.O.Val.(StructV))
	}
	return db.wire(ex, db.lay[elem], v.(StructV))
}

// args200 names an embedded report by its leaves.
func (db *specDB) args200(ex *Ex, sv StructV) []*Term {
	nt := db.named("T808_0x0200")
	var as []*Term
	for _, n := range db.lay["T808_0x0200"].Nodes {
		v := sv.F[fieldIndex(nt, n.Field)]
		switch v := v.(type) {
		case *Term:
			as = append(as, v)
		case DecV:
			if v.Exp == 0 && v.Num.isConst() && v.Num.Val == 0 {
				v.Exp = -6
			}
			if v.Exp != -6 {
				ex.unsupported("embedded coordinate with another scale")
			}
			as = append(as, v.Num)
		case TimeV:
			as = append(as, v.Sec)
		case SliceV:
			s := ex.content(v)
			if len(s.Segs) > 1 {
				ex.unsupported("embedded extras")
			}
			t := ex.b.Var("noextras", US("Str"))
			if len(s.Segs) == 1 {
				g := s.Segs[0]
				if g.B == nil {
					ex.unsupported("embedded extras")
				}
				t = ex.b.App("lwin", US("Str"), ex.b.Var("lb:"+g.B.Key(), US("LB")), g.From, g.N)
			}
			as = append(as, t)
		default:
			ex.unsupported("embedded report field")
		}
	}
	return as
}
func (db *specDB) wire200(ex *Ex, sv StructV) *Seq {
	as := db.args200(ex, sv)
	t := ex.b.App("enc200", US("Str"), as...)
	if as[len(as)-1] == ex.b.Var("noextras", US("Str")) {
		ex.assume(ex.b.Eq(ex.slen(t), ex.b.I(28)))
	} else {
		ex.assume(ex.b.SLe(ex.b.I(28), ex.slen(t)))
	}
	return ex.strSeq(t)
}

// flagged is field f of sv with the hemisphere bits its coordinates require.
func (db *specDB) flagged(ex *Ex, lay *Layout, nt types.Type, sv StructV, f string) *Term {
	b := ex.b
	t := sv.F[fieldIndex(nt, f)].(*Term)
	for _, n := range lay.Nodes {
		switch {
		case n.Op == "geo" && n.Flag == f:
			num := sv.F[fieldIndex(nt, n.Field)].(DecV).Num
			t = b.BOr(t, b.Ite(b.SLt(num, b.I(0)), b.C(t.S.W, 1<<uint(n.Bit)), b.C(t.S.W, 0)))
		case n.Op == "opt" && n.Flag == f:
			m := uint64(1) << uint(n.Bit)
			if sv.F[fieldIndex(nt, n.Sub[0].Field)].(PtrV).O != nil {
				t = b.BOr(t, b.C(t.S.W, m))
			} else {
				t = b.BAnd(t, b.C(t.S.W, (1<<uint(t.S.W)-1)&^m))
			}
		case n.Op == "list16" && n.Elem == "Vertex" && f == "Attribute":
			s := ex.content(sv.F[fieldIndex(nt, n.Field)].(SliceV))
			if len(s.Segs) == 1 {
				l := s.Segs[0].B.(listBase).l
				t = b.BOr(t, db.vertexFlags(ex, l, l.N))
			}
		}
	}
	return t
}

func (db *specDB) wire(ex *Ex, lay *Layout, sv StructV) *Seq {
	return db.wireNodes(ex, lay, lay.Nodes, db.named(lay.Name), sv)
}
func (db *specDB) wireNodes(ex *Ex, lay *Layout, nodes []*Node, nt types.Type, sv StructV) *Seq {
	b := ex.b
	out := emptySeq
	put := func(s *Seq) { out = ex.cat(out, s) }
	for _, n := range nodes {
		var v Value
		if n.Field != "" {
			v = sv.F[fieldIndex(nt, n.Field)]
			if p, ok := v.(PtrV); ok && n.Op != "rsakey" {
				v = p.O.Val
			}
		}
		count := func(w int) {
			s := v.(SliceV)
			put(ex.beBytes(b.Extract(w-1, 0, s.Len)))
		}
		list := func() {
			s := ex.content(v.(SliceV))
			for _, g := range s.Segs {
				l := g.B.(listBase).l
				put(ex.mkSeq(Seg{Fl: l.Flat, From: g.From, To: b.Add(g.From, g.N)}))
			}
		}
		switch n.Op {
		case "u8", "u16", "u32":
			t := v.(*Term)
			if _, ok := sv.F[fieldIndex(nt, n.Field)].(PtrV); !ok {
				t = db.flagged(ex, lay, nt, sv, n.Field)
			}
			put(ex.beBytes(b.Extract(wsize(n.Op)*8-1, 0, t)))
		case "str":
			s := v.(StrV).S
			put(s)
			put(ex.mkSeq(Seg{Rep: b.C(8, 0), N: b.Sub(b.I(int64(n.N)), ex.seqLen(s))}))
		case "str8":
			s := v.(StrV).S
			put(elems(b.Extract(7, 0, ex.seqLen(s))))
			put(s)
		case "gb", "gb8", "gb16", "gbrest", "gbrest1":
			s := ex.gbEnc(v.(StrV).S)
			switch n.Op {
			case "gb8":
				put(elems(b.Extract(7, 0, ex.seqLen(s))))
			case "gb16":
				put(ex.beBytes(b.Extract(15, 0, ex.seqLen(s))))
			}
			put(s)
			if n.Op == "gb" {
				put(ex.mkSeq(Seg{Rep: b.C(8, 0), N: b.Sub(b.I(int64(n.N)), ex.seqLen(s))}))
			}
		case "rest":
			put(ex.content(v.(SliceV)))
		case "bytes8":
			put(elems(b.Extract(7, 0, v.(SliceV).Len)))
			put(ex.content(v.(SliceV)))
		case "raw":
			put(v.(*Seq))
		case "bcd":
			ds, _ := v.(StrV).S.concrete()
			put(bcdPack(ex, ds, n.N))
		case "time":
			var ds []Value
			for i := 2; i < 14; i++ {
				ds = append(ds, ex.timeDigit(v.(TimeV).Sec, i))
			}
			put(bcdPack(ex, ds, 6))
		case "date4":
			var ds []Value
			for i := 0; i < 8; i++ {
				ds = append(ds, ex.timeDigit(v.(TimeV).Sec, i))
			}
			put(bcdPack(ex, ds, 4))
		case "dur5":
			var ds []Value
			t := v.(*Term)
			q, ms := ex.divmod(t, 1000000000)
			ms, _ = ex.divmod(ms, 1000000)
			q, s := ex.divmod(q, 60)
			h, m := ex.divmod(q, 60)
			ds = append(ds, ex.digits(h, 2)...)
			ds = append(ds, ex.digits(m, 2)...)
			ds = append(ds, ex.digits(s, 2)...)
			ds = append(ds, ex.digits(ms, 4)...)
			put(bcdPack(ex, ds, 5))
		case "geo":
			d := v.(DecV)
			abs := b.Ite(b.SLt(d.Num, b.I(0)), b.Neg(d.Num), d.Num)
			put(ex.beBytes(b.Extract(31, 0, abs)))
		case "if":
			if ex.choose(db.bit(ex, nt, sv, n)) {
				put(db.wireNodes(ex, lay, n.Sub, nt, sv))
			}
		case "opt":
			p := sv.F[fieldIndex(nt, n.Sub[0].Field)].(PtrV)
			if p.O != nil {
				put(db.wireNodes(ex, lay, n.Sub, nt, sv))
			}
		case "list8":
			count(8)
			list()
		case "list16":
			count(16)
			list()
		case "optlist8":
			if ex.choose(b.Ne(v.(SliceV).Len, b.I(0))) {
				count(8)
				list()
			}
		case "count16":
			count(16)
		case "listrest", "items":
			list()
		case "extras":
			list()
		case "embed", "embed28":
			put(db.wire200(ex, v.(StructV)))
		case "packet":
			if iv := v.(IfaceV); !iv.Nil.isTrue() {
				put(ex.strSeq(iv.V.(OpqV).Data.(*Term)))
			}
		case "gzip32":
			z := ex.gz(ex.content(v.(SliceV)))
			put(ex.beBytes(b.Extract(31, 0, ex.seqLen(z))))
			put(z)
		case "rsakey":
			k := v.(PtrV).O.Val.(StructV)
			put(ex.beBytes(b.Extract(31, 0, k.F[1].(*Term))))
			put(ex.bigBytes(k.F[0]))
		default:
			ex.unsupported("wire node " + n.Op)
		}
	}
	return out
}

// bcdPack packs decimal digit characters, right aligned, into n bytes.
func bcdPack(ex *Ex, ds []Value, n int) *Seq {
	b := ex.b
	for len(ds) < 2*n {
		ds = append([]Value{b.C(8, '0')}, ds...)
	}
	var out []Value
	for i := 0; i < n; i++ {
		h := b.Sub(ds[2*i].(*Term), b.C(8, '0'))
		l := b.Sub(ds[2*i+1].(*Term), b.C(8, '0'))
		out = append(out, b.BOr(b.Shl(h, b.C(8, 4)), l))
	}
	return elems(out...)
}

// ---- parser --------------------------------------------------------------------

type parser struct {
	db     *specDB
	ex     *Ex
	S      *Seq
	pos    *Term
	end    *Term
	assume bool // assume well-formedness instead of deciding it
	lemma  bool
	tag    string
	up     StructV
	upT    types.Type
	counts map[string]*Term
}

type malformed struct{}

func (p *parser) need(c *Term) bool {
	if p.assume {
		p.ex.assume(c)
		return true
	}
	return p.ex.choose(c)
}
func (p *parser) take(n *Term) (*Seq, bool) {
	if !p.need(p.ex.b.SLe(p.ex.b.Add(p.pos, n), p.end)) {
		return nil, false
	}
	if n.isConst() && n.Val == 0 {
		return emptySeq, true
	}
	s := p.ex.sub(p.S, p.pos, n)
	p.pos = p.ex.b.Add(p.pos, n)
	return s, true
}
func (p *parser) int(n int) (*Term, bool) {
	s, ok := p.take(p.ex.b.I(int64(n)))
	if !ok {
		return nil, false
	}
	return p.ex.bigEndian(s, n), true
}
func nibbles(ex *Ex, s *Seq, n int) []*Term {
	var out []*Term
	for i := 0; i < n; i++ {
		x := ex.byteAt(s, ex.b.I(int64(i)))
		out = append(out, ex.b.Zext(8, ex.b.Extract(7, 4, x)), ex.b.Zext(8, ex.b.Extract(3, 0, x)))
	}
	return out
}
func (p *parser) text(s *Seq) Value {
	if p.lemma {
		s = p.ex.norm(s)
	}
	return StrV{p.cut(s)}
}
func (p *parser) cut(s *Seq) *Seq {
	if p.lemma {
		return p.ex.cut0(s)
	}
	return p.ex.cutNUL(s)
}
func (p *parser) gbText(s *Seq) Value {
	if p.lemma {
		s = p.ex.norm(s)
	}
	d := p.ex.gbDec(s)
	return StrV{p.cut(d)}
}

// parse reads a layout; false means malformed.
func (p *parser) parse(lay *Layout) (StructV, bool) {
	nt := p.db.named(lay.Name)
	sv := StructV{F: append([]Value{}, p.ex.zero(nt).(StructV).F...)}
	if !p.nodes(lay.Nodes, nt, sv, false) {
		return sv, false
	}
	// hemisphere flags
	b := p.ex.b
	for _, n := range lay.Nodes {
		if n.Op != "geo" {
			continue
		}
		fi := fieldIndex(nt, n.Field)
		d := sv.F[fi].(DecV)
		var fl *Term
		if strings.HasPrefix(n.Flag, "^") {
			fl = p.up.F[fieldIndex(p.upT, n.Flag[1:])].(*Term)
		} else {
			fl = sv.F[fieldIndex(nt, n.Flag)].(*Term)
		}
		neg := b.Eq(b.Extract(n.Bit, n.Bit, fl), b.C(1, 1))
		if p.ex.choose(neg) {
			sv.F[fi] = DecV{Num: b.Neg(d.Num), Exp: -6}
		}
	}
	return sv, true
}

func (p *parser) nodes(nodes []*Node, nt types.Type, sv StructV, ptr bool) bool {
	ex, b := p.ex, p.ex.b
	for _, n := range nodes {
		fi := -1
		if n.Field != "" {
			fi = fieldIndex(nt, n.Field)
			if fi < 0 {
				ex.unsupported("no field " + n.Field + " in " + nt.String())
			}
		}
		set := func(v Value) {
			if ptr {
				sv.F[fi] = ex.ptrNew("spec:"+p.tag+n.Field, v)
				return
			}
			sv.F[fi] = v
		}
		switch n.Op {
		case "u8", "u16", "u32":
			t, ok := p.int(wsize(n.Op))
			if !ok {
				return false
			}
			if !ptr {
				if fw, _ := ex.intWidth(fieldType(nt, fi)); fw > t.S.W {
					t = b.Zext(fw, t)
				}
			}
			set(t)
		case "str":
			s, ok := p.take(b.I(int64(n.N)))
			if !ok {
				return false
			}
			set(p.text(s))
		case "gb":
			s, ok := p.take(b.I(int64(n.N)))
			if !ok {
				return false
			}
			set(p.gbText(s))
		case "str8", "gb8", "gb16", "bytes8":
			w := 1
			if n.Op == "gb16" {
				w = 2
			}
			l, ok := p.int(w)
			if !ok {
				return false
			}
			s, ok := p.take(b.Zext(64, l))
			if !ok {
				return false
			}
			switch n.Op {
			case "str8":
				set(p.text(s))
			case "bytes8":
				set(ex.sliceOf(s, "spec:"+p.tag+n.Field, types.Typ[types.Uint8]))
			default:
				set(p.gbText(s))
			}
		case "gbrest", "gbrest1", "rest":
			if n.Op == "gbrest1" && !p.need(b.SLt(p.pos, p.end)) {
				return false
			}
			s, ok := p.take(b.Sub(p.end, p.pos))
			if !ok {
				return false
			}
			if n.Op == "rest" {
				set(ex.sliceOf(s, "spec:"+p.tag+n.Field, types.Typ[types.Uint8]))
			} else {
				set(p.gbText(s))
			}
		case "raw":
			s, ok := p.take(b.I(int64(n.N)))
			if !ok {
				return false
			}
			set(s)
		case "bcd":
			s, ok := p.take(b.I(int64(n.N)))
			if !ok {
				return false
			}
			if !p.lemma {
				set(StrV{ex.bcdText(s)})
				break
			}
			ns := nibbles(ex, s, n.N)
			i := 0
			for i < len(ns) && ex.choose(b.Eq(ns[i], b.C(8, 0))) {
				i++
			}
			var vs []Value
			for ; i < len(ns); i++ {
				vs = append(vs, b.Add(ns[i], b.C(8, '0')))
			}
			set(StrV{elems(vs...)})
		case "time", "date4":
			nb := 6
			if n.Op == "date4" {
				nb = 4
			}
			s, ok := p.take(b.I(int64(nb)))
			if !ok {
				return false
			}
			var d [14]*Term
			for i := range d {
				d[i] = b.C(8, '0')
			}
			d[0] = b.C(8, '2')
			at := 2
			if n.Op == "date4" {
				at = 0
			}
			for i, x := range nibbles(ex, s, nb) {
				d[at+i] = b.Add(x, b.C(8, '0'))
				if p.lemma {
					d[at+i] = ex.normDigit(d[at+i], at+i)
				}
			}
			okT, sec := ex.timeOf(d)
			if !p.need(okT) {
				return false
			}
			set(TimeV{Sec: sec})
		case "dur5":
			s, ok := p.take(b.I(5))
			if !ok {
				return false
			}
			ns := nibbles(ex, s, 5)
			for _, x := range ns {
				if !p.need(b.ULe(x, b.C(8, 9))) {
					return false
				}
			}
			r := b.I(0)
			for i, u := range []uint64{36000e9, 3600e9, 600e9, 60e9, 10e9, 1e9, 1000e6, 100e6, 10e6, 1e6} {
				r = b.Add(r, b.Mul(b.Zext(64, ns[i]), b.C(64, u)))
			}
			set(r)
		case "geo":
			t, ok := p.int(4)
			if !ok {
				return false
			}
			set(DecV{Num: b.Zext(64, t), Exp: -6})
		case "if", "opt":
			if ex.choose(p.db.bit(ex, nt, sv, n)) {
				if !p.nodes(n.Sub, nt, sv, n.Op == "opt") {
					return false
				}
			}
		case "count16":
			t, ok := p.int(2)
			if !ok {
				return false
			}
			p.counts[n.Field] = b.Zext(64, t)
		case "list8", "list16", "optlist8", "items", "listrest", "extras":
			if !p.list(n, nt, fi, sv) {
				return false
			}
		case "embed", "embed28":
			k := b.Sub(p.end, p.pos)
			if n.Op == "embed28" {
				k = b.I(28)
			}
			s, ok := p.take(k)
			if !ok {
				return false
			}
			v, ok := p.embedded(s)
			if !ok {
				return false
			}
			set(v)
		case "packet":
			set(ex.nilIface())
		case "gzip32":
			l, ok := p.int(4)
			if !ok {
				return false
			}
			s, ok := p.take(b.Zext(64, l))
			if !ok {
				return false
			}
			good, z := ex.gunz(ex.seqTerm(s))
			if !p.need(good) {
				return false
			}
			set(ex.sliceOf(z, "spec:"+p.tag+n.Field, types.Typ[types.Uint8]))
		case "rsakey":
			e, ok := p.int(4)
			if !ok {
				return false
			}
			s, ok := p.take(b.I(128))
			if !ok {
				return false
			}
			big := ex.ptrNew("bigN", OpqV{Kind: "big", Data: bigV{s}})
			set(ex.ptrNew("pubkey", StructV{F: []Value{big, b.Zext(64, e)}}))
		default:
			ex.unsupported("parse node " + n.Op)
		}
	}
	return true
}

// embedded applies the contract of T808_0x0200.Decode to a byte sequence.
func (p *parser) embedded(s *Seq) (StructV, bool) {
	ex := p.ex
	if p.lemma {
		s = ex.norm(s)
	}
	t := ex.seqTerm(s)
	n := ex.seqLen(s)
	v, ok := p.db.dec200(ex, t, n)
	if !p.need(ok) {
		return StructV{}, false
	}
	return v, true
}

// dec200: result and acceptance of T808_0x0200.Decode as functions of the bytes.
func (db *specDB) dec200(ex *Ex, t, n *Term) (StructV, *Term) {
	b := ex.b
	nt := db.named("T808_0x0200")
	sv := StructV{F: append([]Value{}, ex.zero(nt).(StructV).F...)}
	if t.Op == OApp && t.Name == "enc200" {
		// the round-trip lemma of T808_0x0200
		for i, nd := range db.lay["T808_0x0200"].Nodes {
			fi := fieldIndex(nt, nd.Field)
			a := t.Args[i]
			switch nd.Op {
			case "geo":
				sv.F[fi] = DecV{Num: a, Exp: -6}
			case "time":
				sv.F[fi] = TimeV{Sec: a}
			case "extras":
				if a.Op == OApp && a.Name == "lwin" {
					sv.F[fi] = OpqV{Kind: "extrasTerm", Data: a}
				}
			default:
				if nd.Field == "Status" {
					for k, bit := range []uint64{4, 8} {
						a = b.BOr(a, b.Ite(b.SLt(t.Args[2+k], b.I(0)), b.C(32, bit), b.C(32, 0)))
					}
				}
				sv.F[fi] = a
			}
		}
		return sv, b.T
	}
	for _, nd := range db.lay["T808_0x0200"].Nodes {
		fi := fieldIndex(nt, nd.Field)
		nm := "x200." + nd.Field
		switch nd.Op {
		case "u8", "u16", "u32":
			sv.F[fi] = b.App(nm, BV(8*wsize(nd.Op)), t)
		case "geo":
			sv.F[fi] = DecV{Num: b.App(nm, BV(64), t), Exp: -6}
		case "time":
			sv.F[fi] = TimeV{Sec: b.App(nm, BV(64), t)}
		case "extras":
			cnt := b.App("x200.n", BV(64), t)
			ex.assume(b.And(b.SLe(b.I(0), cnt), b.SLe(cnt, n)))
			hb := &opqBase{key: fmt.Sprintf("x200ex:%d", t.ID)}
			sv.F[fi] = ex.sliceOf(ex.win(hb, b.I(0), cnt), "x200extras", nil)
		}
	}
	ok := b.App("ok200", BoolS, t)
	ex.assume(b.Implies(ok, b.SLe(b.I(28), n)))
	return sv, ok
}

type opqBase struct{ key string }

func (o *opqBase) Key() string { return o.key }
func (o *opqBase) At(ex *Ex, i *Term) Value {
	return IfaceV{Nil: ex.b.F, Id: ex.b.App(o.key, BV(32), i)}
}

// fixedSize of an element type, or -1.
func (db *specDB) fixedSize(elem string) int {
	if w := wsize(elem); w > 0 {
		return w
	}
	if strings.HasPrefix(elem, "embed16:") {
		return -1
	}
	n := 0
	for _, nd := range db.lay[strings.TrimPrefix(elem, "*")].Nodes {
		switch nd.Op {
		case "u8", "u16", "u32":
			n += wsize(nd.Op)
		case "raw":
			n += nd.N
		case "geo":
			n += 4
		default:
			return -1
		}
	}
	return n
}

func (p *parser) list(n *Node, nt types.Type, fi int, sv StructV) bool {
	ex, b := p.ex, p.ex.b
	var N *Term
	switch n.Op {
	case "list8", "list16":
		w := 1
		if n.Op == "list16" {
			w = 2
		}
		t, ok := p.int(w)
		if !ok {
			return false
		}
		N = b.Zext(64, t)
	case "optlist8":
		if ex.choose(b.Eq(p.pos, p.end)) {
			return true
		}
		t, ok := p.int(1)
		if !ok {
			return false
		}
		N = b.Zext(64, t)
	case "items":
		N = p.counts[n.Field]
	default:
		N = b.Var("N:"+p.tag+n.Field, BV(64))
		ex.assume(b.And(b.SLe(b.I(0), N), b.SLe(N, b.I(1<<40))))
	}
	open := n.Op == "listrest" || n.Op == "extras"
	minRem := int64(1)
	if n.Op == "extras" {
		minRem = 2
	}
	base, end, S := p.pos, p.end, p.S
	key := "sp:" + p.tag + n.Field
	l := &SpecList{Key: key, N: N}
	size := -1
	if n.Op != "extras" {
		size = p.db.fixedSize(n.Elem)
	}
	l.P = func(ex *Ex, k *Term) *Term {
		if size >= 0 {
			return b.Add(base, b.Mul(k, b.I(int64(size))))
		}
		if k.isConst() && k.Val == 0 {
			return base
		}
		t := b.App("P:"+key, BV(64), k)
		kk := fmt.Sprintf("P%d", t.ID)
		if !ex.seen[kk] {
			ex.seen[kk] = true
			ex.assume(b.And(b.SLe(base, t), b.SLe(t, end)))
			ex.assume(b.Eq(b.App("P:"+key, BV(64), b.I(0)), base))
		}
		return t
	}
	up, upT := sv, nt
	elem := func(ex *Ex, k *Term, assume bool) (Value, *Term, bool) {
		q := &parser{db: p.db, ex: ex, S: S, pos: l.P(ex, k), end: end, assume: assume, tag: fmt.Sprintf("%s[%d].", p.tag+n.Field, k.ID), up: up, upT: upT, counts: map[string]*Term{}}
		if n.Op == "extras" {
			return q.extra()
		}
		switch {
		case wsize(n.Elem) > 0:
			t, ok := q.int(wsize(n.Elem))
			return t, q.pos, ok
		case strings.HasPrefix(n.Elem, "embed16:"):
			t, ok := q.int(2)
			if !ok {
				return nil, nil, false
			}
			s, ok := q.take(b.Zext(64, t))
			if !ok {
				return nil, nil, false
			}
			v, ok := q.embedded(s)
			return v, q.pos, ok
		}
		v, ok := q.parse(p.db.lay[strings.TrimPrefix(n.Elem, "*")])
		if !ok {
			return nil, nil, false
		}
		if strings.HasPrefix(n.Elem, "*") {
			return ex.ptrNew("spec:"+key, v), q.pos, true
		}
		return v, q.pos, true
	}
	l.Elem = func(ex *Ex, k *Term) Value {
		mk := fmt.Sprintf("%s[%d]", key, k.ID)
		if v, ok := ex.memo[mk]; ok {
			return v
		}
		v, next, _ := elem(ex, k, true)
		ex.memo[mk] = v
		if size < 0 {
			ex.assume(b.Eq(l.P(ex, b.Add(k, b.I(1))), next))
		}
		return v
	}
	if n.Op == "extras" {
		l.Flat = &specExtraFlat{l}
	}
	good := ex.chooseN(2) == 0
	more := func(k *Term) *Term { return b.SLe(b.I(minRem), b.Sub(end, l.P(ex, k))) }
	if good {
		if size >= 0 {
			ex.assume(b.SLe(l.P(ex, N), end))
		} else {
			l.P(ex, N)
		}
		if open && n.Op == "listrest" {
			ex.assume(b.Eq(l.P(ex, N), end))
		} else if open {
			ex.assume(b.Not(more(N)))
		}
		l.Unfold = func(ex *Ex, k *Term) int {
			if ex.choose(b.SLt(k, N)) {
				if open {
					ex.assume(more(k))
				}
				l.Elem(ex, k)
				return 1
			}
			ex.assume(b.Eq(k, N))
			return 0
		}
	} else {
		kb := b.Var("kb:"+key, BV(64))
		ex.assume(b.And(b.SLe(b.I(0), kb), b.SLt(kb, N)))
		ex.assume(b.And(b.SLe(base, l.P(ex, kb)), b.SLe(l.P(ex, kb), end)))
		if size >= 0 {
			ex.assume(b.SLt(end, b.Add(l.P(ex, kb), b.I(int64(size)))))
		}
		if open {
			ex.assume(more(kb))
		}
		l.Unfold = func(ex *Ex, k *Term) int {
			if ex.choose(b.SLt(k, kb)) {
				if open {
					ex.assume(more(k))
				}
				l.Elem(ex, k)
				return 1
			}
			ex.assume(b.Eq(k, kb))
			if open {
				ex.assume(more(k))
			}
			if _, _, ok := elem(ex, k, false); ok {
				ex.cut()
			}
			return 2
		}
	}
	ex.lists = append(ex.lists, l)
	if !good {
		// a well-formed prefix precedes the malformed element; an instance where
		// it is the first one must exist
		return false
	}
	p.pos = l.P(ex, N)
	if n.Op == "extras" {
		sv.F[fi] = ex.sliceOf(ex.mkSeq(Seg{Fl: l.Flat, From: b.I(0), To: N}), "spec:"+key, nil)
		return true
	}
	sv.F[fi] = ex.sliceOf(ex.win(listBase{l}, b.I(0), N), "spec:"+key, fieldType(nt, fi).Underlying().(*types.Slice).Elem())
	return true
}

// extra: one additional information item of a location report. The value is
// the entity (registered id) or nil (unknown id, skipped).
func (p *parser) extra() (Value, *Term, bool) {
	ex, b := p.ex, p.ex.b
	id, ok := p.int(1)
	if !ok {
		return nil, nil, false
	}
	ln, ok := p.int(1)
	if !ok {
		return nil, nil, false
	}
	n := b.Zext(64, ln)
	s, ok := p.take(n)
	if !ok {
		return nil, nil, false
	}
	known, xok, cnt, ent := extraContract(ex, id, ex.seqTerm(s), n)
	if ex.choose(known) {
		if !p.need(xok) || !p.need(b.Eq(cnt, n)) {
			return nil, nil, false
		}
		return ent, p.pos, true
	}
	return OpqV{Kind: "skipped"}, p.pos, true
}

// extraContract: the behaviour of extra.Decode as functions of (id, data).
func extraContract(ex *Ex, id, data, n *Term) (known, ok, cnt *Term, ent IfaceV) {
	b := ex.b
	known = b.App("xknown", BoolS, id)
	ok = b.App("xok", BoolS, id, data)
	cnt = b.App("xcnt", BV(64), id, data)
	ent = IfaceV{Nil: b.F, Id: b.App("xent", BV(32), id, data)}
	return
}

type specExtraFlat struct{ l *SpecList }

func (f *specExtraFlat) Key() string { return "xs" + f.l.Key }
func (f *specExtraFlat) Expand(ex *Ex, j *Term) *Seq {
	v := f.l.Elem(ex, j)
	if o, ok := v.(OpqV); ok && o.Kind == "skipped" {
		return emptySeq
	}
	return elems(v)
}
func (f *specExtraFlat) Len(ex *Ex, from, to *Term) *Term { return flatLen(ex, f.Key(), from, to) }

// norm simplifies a sequence semantically (drops empty parts, completes windows).
func (ex *Ex) norm(s *Seq) *Seq {
	var out []Seg
	for _, g := range s.Segs {
		n := ex.segLen(g)
		if g.kind() != "E" && ex.valid(ex.b.Eq(n, ex.b.I(0))) {
			continue
		}
		if sb, ok := g.B.(StrBase); ok && g.From.isConst() && g.From.Val == 0 && g.N != ex.slen(sb.T) && ex.valid(ex.b.Eq(g.N, ex.slen(sb.T))) {
			g.N = ex.slen(sb.T)
		}
		out = append(out, g)
	}
	return ex.mkSeq(out...)
}

// normDigit recognises a formatted time digit.
func (ex *Ex) normDigit(t *Term, i int) *Term {
	seen := map[*Term]bool{}
	var cands []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OApp && t.Name == fmt.Sprintf("tfmt%d", i) {
			cands = append(cands, t)
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	for _, c := range cands {
		if ex.valid(ex.b.Eq(c, t)) {
			return c
		}
	}
	return t
}
