package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts of the message bodies, and the proof roots made from them.

func (w *World) method(t *types.Named, name string) *ssa.Function {
	ms := w.Prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func hasNode(lay *Layout, db *specDB, ops ...string) bool {
	var rec func(ns []*Node) bool
	rec = func(ns []*Node) bool {
		for _, n := range ns {
			for _, o := range ops {
				if n.Op == o || strings.HasPrefix(n.Elem, o) {
					return true
				}
			}
			if rec(n.Sub) {
				return true
			}
			if l := db.lay[strings.TrimPrefix(n.Elem, "*")]; l != nil && n.Op != "embed" && n.Op != "embed28" && rec(l.Nodes) {
				return true
			}
		}
		return false
	}
	return rec(lay.Nodes)
}

// hook200: calls of T808_0x0200's codec from other entities are replaced by its
// contract (proved by the T808_0x0200 roots).
func hook200(ex *Ex, db *specDB) {
	base := "(*" + modPath + "/protocol.T808_0x0200)."
	ex.hooks[base+"Decode"] = func(ex *Ex, args []Value) (Value, bool) {
		p := args[0].(PtrV)
		ex.derefCheck(p, "T808_0x0200.Decode receiver")
		s := args[1].(SliceV)
		cur := ex.load(p).(StructV)
		nt := db.named("T808_0x0200")
		if xs, ok := cur.F[fieldIndex(nt, "Extras")].(SliceV); !ok || !(xs.Len.isConst() && xs.Len.Val == 0) {
			ex.unsupported("T808_0x0200.Decode on a receiver that has extras")
		}
		seq := ex.content(s)
		ex.e.Used["contract T808_0x0200.Decode"] = true
		v, ok := db.dec200(ex, ex.seqTerm(seq), ex.seqLen(seq))
		cnt := ex.fresh("cnt200", BV(64))
		ex.assume(ex.b.And(ex.b.SLe(ex.b.I(0), cnt), ex.b.SLe(cnt, s.Len)))
		if ex.choose(ok) {
			ex.store(p, v)
			return TupleV{cnt, ex.nilErr()}, true
		}
		// on failure the receiver's fields are arbitrary
		junk, _ := db.dec200(ex, ex.fresh("junk200", US("Str")), s.Len)
		ex.store(p, junk)
		return TupleV{ex.b.I(0), ex.errConst("err200")}, true
	}
	ex.hooks[base+"Encode"] = func(ex *Ex, args []Value) (Value, bool) {
		p := args[0].(PtrV)
		ex.derefCheck(p, "T808_0x0200.Encode receiver")
		v := ex.load(p).(StructV)
		ex.e.Used["contract T808_0x0200.Encode"] = true
		w := db.wire200(ex, v)
		nt := db.named("T808_0x0200")
		nv := StructV{F: append([]Value{}, v.F...)}
		nv.F[fieldIndex(nt, "Status")] = db.flagged(ex, db.lay["T808_0x0200"], nt, v, "Status")
		ex.store(p, nv)
		return TupleV{ex.freshSlice(w, "enc200"), ex.nilErr()}, true
	}
}

// hookExtra: extra.Decode and the Entity interface of package extra by contract.
func hookExtra(ex *Ex, w *World) {
	b := ex.b
	ex.hooks[modPath+"/protocol/extra.Decode"] = func(ex *Ex, args []Value) (Value, bool) {
		id := args[0].(*Term)
		s := args[1].(SliceV)
		seq := ex.content(s)
		ex.e.Used["contract extra.Decode"] = true
		known, ok, cnt, ent := extraContract(ex, id, ex.seqTerm(seq), ex.seqLen(seq))
		if !ex.choose(known) {
			g := ex.load(ex.global(w.Pkgs["errors"].Var("ErrTypeNotRegistered")).(PtrV))
			return TupleV{ex.nilIface(), b.I(0), g}, true
		}
		if !ex.choose(ok) {
			return TupleV{ex.nilIface(), b.I(0), ex.errConst("errextra")}, true
		}
		ex.assume(b.And(b.SLe(b.I(0), cnt), b.SLe(cnt, s.Len)))
		return TupleV{ent, cnt, ex.nilErr()}, true
	}
	ex.hooks["iface:Data"] = func(ex *Ex, args []Value) (Value, bool) {
		iv, ok := args[0].(IfaceV)
		if !ok {
			return nil, false
		}
		ex.e.Used["contract extra.Entity.Data"] = true
		if ex.choose(b.App("typednil", BoolS, iv.Id)) {
			ex.throw("Data of a nil extra", nil)
		}
		return ex.freshSlice(ex.strSeq(b.App("xdata", US("Str"), iv.Id)), "xdata"), true
	}
	ex.hooks["iface:ID"] = func(ex *Ex, args []Value) (Value, bool) {
		iv, ok := args[0].(IfaceV)
		if !ok {
			return nil, false
		}
		ex.e.Used["contract extra.Entity.ID"] = true
		if ex.choose(b.App("typednil", BoolS, iv.Id)) {
			ex.throw("ID of a nil extra", nil)
		}
		return b.App("xidb", BV(8), iv.Id), true
	}
}

// helper: an unexported function of package protocol, by its name or, where
// the name is gone, as the only one with that signature.
func (w *World) helper(name string) *ssa.Function {
	pk := w.Pkgs["protocol"]
	if f := pk.Func(name); f != nil {
		return f
	}
	sig, ok := map[string]string{
		"bytesToString": "func([]byte) string",
		"bcdToString":   "func([]byte, ...bool) string",
		"stringToBCD":   "func(string, ...int) []byte",
		"fromBCDTime":   "func([]byte) (time.Time, error)",
		"getGeoPoint":   "func(uint32, bool, uint32, bool) (github.com/shopspring/decimal.Decimal, github.com/shopspring/decimal.Decimal)",
		"bytesSplit":    "func([]byte, int) [][]byte",
	}[name]
	if !ok {
		return nil
	}
	var got *ssa.Function
	for n, m := range pk.Members {
		f, isF := m.(*ssa.Function)
		if !isF || f.Signature.Recv() != nil || token.IsExported(n) || sigString(f.Signature) != sig {
			continue
		}
		if got != nil {
			return nil
		}
		got = f
	}
	return got
}

// sigString: the signature without parameter names.
func sigString(s *types.Signature) string {
	list := func(t *types.Tuple, variadic bool) string {
		var out []string
		for i := 0; i < t.Len(); i++ {
			x := t.At(i).Type().String()
			if variadic && i == t.Len()-1 {
				x = "..." + strings.TrimPrefix(x, "[]")
			}
			out = append(out, x)
		}
		return strings.Join(out, ", ")
	}
	r := list(s.Results(), false)
	if s.Results().Len() > 1 {
		r = "(" + r + ")"
	}
	if r != "" {
		r = " " + r
	}
	return "func(" + list(s.Params(), s.Variadic()) + ")" + r
}

// hookPrim: the text and BCD helpers by contract (proved by the prim: roots).
func hookPrim(ex *Ex) {
	hook := func(name string, h func(ex *Ex, args []Value) (Value, bool)) {
		if f := ex.e.W.helper(name); f != nil {
			ex.hooks[f.String()] = h
		}
	}
	hook("bytesToString", func(ex *Ex, args []Value) (Value, bool) {
		s, ok := args[0].(SliceV)
		if len(args) != 1 || !ok {
			return nil, false
		}
		ex.e.Used["contract bytesToString"] = true
		return StrV{ex.cutNUL(ex.content(s))}, true
	})
	hook("bcdToString", func(ex *Ex, args []Value) (Value, bool) {
		if len(args) != 2 {
			return nil, false
		}
		s, ok1 := args[0].(SliceV)
		o, ok2 := args[1].(SliceV)
		if !ok1 || !ok2 || !s.Len.isConst() || s.Len.Val != 6 && s.Len.Val != 10 || !o.Len.isConst() || o.Len.Val != 0 {
			return nil, false
		}
		ex.e.Used["contract bcdToString"] = true
		return StrV{ex.bcdText(ex.content(s))}, true
	})
}

// primJobs: the helper functions meet the contracts their callers rely on.
func primJobs(w *World) []job {
	var js []job
	fn := w.helper
	if f := fn("bytesToString"); f != nil {
		js = append(js, job{"prim:bytesToString", func(w *World, e *Engine) {
			e.Explore(func(ex *Ex) {
				D := ex.b.Var("D", US("Str"))
				S := ex.strSeq(D)
				b := ex.b
				z := ex.indexByte(S, b.C(8, 0)) // the first NUL, or -1: instantiated at every byte looked at
				ex.atHookT, ex.atHook = D, func(i *Term) {
					k := fmt.Sprintf("z%d", i.ID)
					if ex.seen[k] || i == z {
						return
					}
					ex.seen[k] = true
					at := b.App("at", BV(8), D, i)
					in := b.And(b.SLe(b.I(0), i), b.SLt(i, ex.slen(D)))
					ex.assume(b.And(b.Implies(b.And(in, b.Or(b.Eq(z, b.I(-1)), b.SLt(i, z))), b.Ne(at, b.C(8, 0))), b.Implies(b.Eq(i, z), b.Eq(at, b.C(8, 0)))))
					ex.indexFact(i, b.Or(b.Eq(z, b.I(-1)), b.SLe(i, z)))
				}
				r := ex.callFn(f, []Value{ex.freshSlice(S, "data")}, nil, "root")
				ex.ok("no-panic")
				ex.assertEq("text up to the first NUL", r, StrV{ex.cut0(S)})
			})
		}})
	}
	if f := fn("bcdToString"); f != nil {
		for _, n := range []int{6, 10} {
			n := n
			js = append(js, job{fmt.Sprintf("prim:bcdToString/%d", n), func(w *World, e *Engine) {
				e.Explore(func(ex *Ex) {
					b := ex.b
					D := b.Var("D", US("Str"))
					ex.assume(b.Eq(ex.slen(D), b.I(int64(n))))
					var vs []Value
					for i := 0; i < n; i++ {
						vs = append(vs, b.App("at", BV(8), D, b.I(int64(i))))
					}
					S := elems(vs...)
					p := &parser{db: w.DB, ex: ex, S: S, pos: b.I(0), end: b.I(int64(n)), lemma: true}
					var want Value
					{
						ns := nibbles(ex, S, n)
						i := 0
						for i < len(ns) && ex.choose(b.Eq(ns[i], b.C(8, 0))) {
							i++
						}
						var vs []Value
						for ; i < len(ns); i++ {
							vs = append(vs, b.Add(ns[i], b.C(8, '0')))
						}
						want = StrV{elems(vs...)}
					}
					_ = p
					r := ex.callFn(f, []Value{ex.sliceOf(S, "data", types.Typ[types.Uint8]), ex.nilSlice()}, nil, "root")
					ex.ok("no-panic")
					ex.assertEq("digits without leading zeros", r, want)
				})
			}})
		}
	}
	return js
}

func isErr(ex *Ex, v Value) *Term { return ex.b.Not(v.(IfaceV).Nil) }

func decodeRoot(w *World, e *Engine, lay *Layout) {
	db := w.DB
	nt := db.named(lay.Name)
	fn := w.method(nt, "Decode")
	e.Explore(func(ex *Ex) {
		b := ex.b
		if lay.Name == "T808_0x0200" {
			hookExtra(ex, w)
		} else {
			hook200(ex, db)
		}
		hookPrim(ex)
		D := b.Var("D", US("Str"))
		ex.addInput("D", D)
		S := ex.strSeq(D)
		ex.addInput("len(D)", ex.slen(D))
		for i := 0; i < 48; i++ {
			ex.addInput(fmt.Sprintf("D[%d]", i), b.App("at", BV(8), D, b.I(int64(i))))
		}
		p := &parser{db: db, ex: ex, S: S, pos: b.I(0), end: ex.slen(D), counts: map[string]*Term{}, tag: ""}
		want, good := p.parse(lay)
		ent := ex.newObj("entity", ex.zero(nt), nt)
		data := ex.freshSlice(S, "data")
		res := ex.callFn(fn, []Value{ex.ptrTo(ent), data}, nil, "root").(TupleV)
		cnt, err := res[0].(*Term), res[1].(IfaceV)
		ex.ok("no-panic")
		if !good {
			ex.assert("rejects", isErr(ex, err), func() string { return "a malformed body is accepted" })
			return
		}
		if !ex.assert("accepts", err.Nil, func() string { return "a well-formed body is rejected" }) {
			return
		}
		ex.assert("count", b.And(b.SLe(b.I(0), cnt), b.SLe(cnt, data.Len)), nil)
		got := ent.Val.(StructV)
		st := nt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			ex.assertEq("field "+st.Field(i).Name(), got.F[i], want.F[i])
		}
		ex.assertEq("input-unchanged", StrV{ex.content(data)}, StrV{S})
	})
}

func encodeRoot(w *World, e *Engine, lay *Layout) {
	db := w.DB
	nt := db.named(lay.Name)
	fn := w.method(nt, "Encode")
	e.Explore(func(ex *Ex) {
		if lay.Name == "T808_0x0200" {
			hookExtra(ex, w)
		} else {
			hook200(ex, db)
		}
		v := db.mkInput(ex, lay, scope{path: lay.Name})
		want := db.wire(ex, lay, v)
		ent := ex.newObj("entity", v, nt)
		res := ex.callFn(fn, []Value{ex.ptrTo(ent)}, nil, "root").(TupleV)
		ex.ok("no-panic")
		if !ex.assert("encodes", res[1].(IfaceV).Nil, func() string { return "a representable value is refused" }) {
			return
		}
		ex.assertEq("wire", StrV{ex.content(asSlice(ex, res[0]))}, StrV{want})
	})
}

// lemmaRoot: the layout's parser inverts its wire image on representable values.
func lemmaRoot(w *World, e *Engine, lay *Layout) {
	db := w.DB
	nt := db.named(lay.Name)
	e.Explore(func(ex *Ex) {
		b := ex.b
		v := db.mkInput(ex, lay, scope{path: lay.Name})
		S := db.wire(ex, lay, v)
		n := ex.seqLen(S)
		p := &parser{db: db, ex: ex, S: S, pos: b.I(0), end: n, counts: map[string]*Term{}, lemma: true}
		got, good := p.parse(lay)
		if !good {
			ex.assert("wire image is well-formed", b.F, func() string { return "the wire image does not parse" })
			return
		}
		ex.assert("whole image consumed", b.Eq(p.pos, n), nil)
		st := nt.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			want := v.F[i]
			if t, ok := want.(*Term); ok && t.S.Name == "BV" {
				want = db.flagged(ex, lay, nt, v, st.Field(i).Name())
			}
			ex.assertEq("lemma field "+st.Field(i).Name(), got.F[i], want)
		}
	})
}

func allJobs(w *World) []job {
	var js []job
	for _, lay := range w.DB.order {
		lay := lay
		if lay.MsgID < 0 {
			continue
		}
		js = append(js, job{"dec:" + lay.Name, func(w *World, e *Engine) { decodeRoot(w, e, lay) }})
		js = append(js, job{"enc:" + lay.Name, func(w *World, e *Engine) { encodeRoot(w, e, lay) }})
	}
	for _, lay := range w.DB.order {
		lay := lay
		js = append(js, job{"lemma:" + lay.Name, func(w *World, e *Engine) { lemmaRoot(w, e, lay) }})
	}
	js = append(js, primJobs(w)...)
	js = append(js, leafJobs(w)...)
	js = append(js, msgJobs(w)...)
	js = append(js, regJobs(w)...)
	js = append(js, oaepJobs(w)...)
	js = append(js, recvJobs(w)...)
	js = append(js, sessJobs(w)...)
	js = append(js, timerJobs(w)...)
	js = append(js, srvJobs(w)...)
	js = append(js, partJobs(w)...)
	return js
}
