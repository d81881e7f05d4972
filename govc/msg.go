package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Proof roots for Message.Encode and Message.Decode. Header.Encode,
// Header.Decode, EncryptOAEP and DecryptOAEP are used by contract (they are
// proved by the roots hdr: and oaep:); body types are abstract.

// escList: the bytes of a sequence, with escaped offsets and escaped image.
func escList(ex *Ex, key string, n *Term, at func(ex *Ex, j *Term) *Term) *SpecList {
	b := ex.b
	l := &SpecList{Key: key, N: n}
	l.Elem = func(ex *Ex, j *Term) Value { return at(ex, j) }
	l.P = func(ex *Ex, k *Term) *Term {
		t := b.App("esc:"+key, BV(64), k)
		if kk := fmt.Sprintf("esc%d", t.ID); !ex.seen[kk] {
			ex.seen[kk] = true
			ex.assume(b.And(b.SLe(b.I(0), t), b.SLe(t, b.I(1<<41))))
			ex.assume(b.Eq(b.App("esc:"+key, BV(64), b.I(0)), b.I(0)))
		}
		return t
	}
	l.Unfold = func(ex *Ex, k *Term) int {
		if !ex.choose(b.SLt(k, n)) {
			ex.assume(b.Eq(k, n))
			return 0
		}
		e := at(ex, k)
		sp := b.Or(b.Eq(e, b.C(8, 0x7e)), b.Eq(e, b.C(8, 0x7d)))
		ex.assume(b.Eq(l.P(ex, b.Add(k, b.I(1))), b.Add(l.P(ex, k), b.Ite(sp, b.I(2), b.I(1)))))
		return 1
	}
	l.Flat = &escFlat{l}
	return l
}

type escFlat struct{ l *SpecList }

func (f *escFlat) Key() string { return "esc" + f.l.Key }
func (f *escFlat) Expand(ex *Ex, j *Term) *Seq {
	return escByte(ex, f.l.Elem(ex, j).(*Term))
}
func (f *escFlat) Len(ex *Ex, from, to *Term) *Term {
	d := ex.b.Sub(f.l.P(ex, to), f.l.P(ex, from))
	ex.assume(ex.b.SLe(ex.b.I(0), d))
	return d
}

func escByte(ex *Ex, e *Term) *Seq {
	b := ex.b
	c := func(v uint64) *Term { return b.C(8, v) }
	if ex.choose(b.Eq(e, c(0x7e))) {
		return elems(c(0x7d), c(2))
	}
	if ex.choose(b.Eq(e, c(0x7d))) {
		return elems(c(0x7d), c(1))
	}
	return elems(e)
}
func (l *SpecList) all(ex *Ex) *Seq {
	return ex.mkSeq(Seg{Fl: l.Flat, From: ex.b.I(0), To: l.N})
}
func xorFold(ex *Ex, l *SpecList, n *Term) *Term {
	b := ex.b
	f := func(i *Term) *Term { return b.App("xf:"+l.Key, BV(8), i) }
	ex.assume(b.Eq(f(b.I(0)), b.C(8, 0)))
	return f(n)
}

func strList(ex *Ex, t *Term) *SpecList {
	return escList(ex, fmt.Sprintf("str%d", t.ID), ex.slen(t), func(ex *Ex, j *Term) *Term { return ex.b.App("at", BV(8), t, j) })
}

// headerBytes: the header image as an opaque function of the header fields
// (root hdr:Encode proves the function's contract).
func headerBytes(ex *Ex, id, prop, icc, ser, hasP, sum, seq *Term) *Term {
	b := ex.b
	h := b.App("header", US("Str"), id, prop, icc, ser, hasP, b.Ite(hasP, sum, b.C(16, 0)), b.Ite(hasP, seq, b.C(16, 0)))
	ex.assume(b.Eq(ex.slen(h), b.Ite(hasP, b.I(16), b.I(12))))
	return h
}

func hookHeaderEncode(ex *Ex, w *World, onH func(*Term)) {
	ht, pt := w.namedIn("protocol", "Header"), w.namedIn("protocol", "Packet")
	fn := w.method(ht, "Encode")
	if fn == nil {
		return
	}
	ex.hooks[fn.String()] = func(ex *Ex, a []Value) (Value, bool) {
		b := ex.b
		p := asPtr(ex, a[0])
		sv := ex.load(p).(StructV)
		f := func(n string) *Term { return sv.F[fieldIndex(ht, n)].(*Term) }
		ex.assert("terminal number has twelve digits", b.ULt(f("IccID"), b.C(64, maxIcc)), nil)
		pk := sv.F[fieldIndex(ht, "Packet")].(PtrV)
		has := !ex.choose(pk.Nil)
		prop := f("Property")
		sum, seq := b.C(16, 0), b.C(16, 0)
		if has {
			pv := ex.load(pk).(StructV)
			sum, seq = pv.F[fieldIndex(pt, "Sum")].(*Term), pv.F[fieldIndex(pt, "Seq")].(*Term)
			prop = withBit(ex, prop, 13, b.T)
			nf := append([]Value{}, sv.F...)
			nf[fieldIndex(ht, "Property")] = prop
			ex.store(p, StructV{F: nf})
		} else if ex.choose(bitAt(ex, prop, 13)) {
			return TupleV{ex.nilSlice(), ex.anyErr("hdr")}, true
		}
		h := headerBytes(ex, f("MsgID"), prop, f("IccID"), f("MsgSerialNo"), b.Bool(has), sum, seq)
		onH(h)
		return TupleV{ex.freshSlice(ex.strSeq(h), "header"), ex.nilErr()}, true
	}
}

func opaqueBody(ex *Ex) IfaceV {
	id := ex.b.Var("body", BV(32))
	ex.assume(ex.b.Ne(id, ex.b.C(32, 0)))
	return IfaceV{Nil: ex.b.F, Id: id}
}

func keyArg(ex *Ex, kind int, name string) Value {
	switch kind {
	case 0:
		return ex.nilSlice()
	case 1:
		return ex.sliceOf(elems(ex.nilPtr()), name, nil)
	}
	return ex.sliceOf(elems(ex.ptrNew(name, OpqV{Kind: name})), name, nil)
}

func msgJobs(w *World) []job {
	mt, ht, pt := w.namedIn("protocol", "Message"), w.namedIn("protocol", "Header"), w.namedIn("protocol", "Packet")
	pk := w.Pkgs["protocol"]
	var js []job
	js = append(js, job{"msg:encode", func(w *World, e *Engine) {
		fn := w.method(mt, "Encode")
		if !w.need(e, fn, "Message.Encode") {
			return
		}
		e.Explore(func(ex *Ex) {
			b := ex.b
			id, prop, ser := b.Var("MsgID", BV(16)), b.Var("Property", BV(16)), b.Var("MsgSerialNo", BV(16))
			icc := b.Var("IccID", BV(64))
			sum, seq := b.Var("Packet.Sum", BV(16)), b.Var("Packet.Seq", BV(16))
			bodyID := b.Var("Body.MsgID", BV(16))
			for _, t := range []*Term{id, prop, ser, icc, sum, seq, bodyID} {
				ex.addInput(t.Name, t)
			}
			ex.assume(b.ULt(icc, b.C(64, maxIcc)))
			withP := ex.choose(b.Var("hasPacket", BoolS))
			var pv Value = ex.nilPtr()
			if withP {
				sv := StructV{F: append([]Value{}, ex.zero(pt).(StructV).F...)}
				sv.F[fieldIndex(pt, "Sum")] = sum
				sv.F[fieldIndex(pt, "Seq")] = seq
				pv = ex.ptrTo(ex.newObj("packet", sv, pt))
			}
			bodyKind := ex.chooseN(3) // none, typed nil, value
			body := ex.nilIface()
			var B *Term // body bytes, nil when the body has none
			bodyErr, encErr := false, false
			var blist *SpecList
			useB := func(t *Term) {
				B = t
				n := ex.slen(t)
				ex.addInput("len(body)", n)
				blist = strList(ex, t)
				ex.lists = append(ex.lists, blist)
			}
			if bodyKind > 0 {
				body = opaqueBody(ex)
				ex.assume(b.Eq(b.App("typednil", BoolS, body.Id), b.Bool(bodyKind == 1)))
			}
			kind := ex.chooseN(3)
			key := keyArg(ex, kind, "pubkey")
			ex.hooks["iface:MsgID"] = func(ex *Ex, a []Value) (Value, bool) { return bodyID, true }
			ex.hooks["iface:Encode"] = func(ex *Ex, a []Value) (Value, bool) {
				if bodyKind != 2 {
					ex.failNow("a body that is not there is not encoded", "Encode called on a nil body")
				}
				if bodyErr = !ex.choose(b.Var("bodyok", BoolS)); bodyErr {
					return TupleV{ex.nilSlice(), ex.anyErr("body")}, true
				}
				t := b.Var("bodybytes", US("Str"))
				if kind != 2 {
					useB(t)
				}
				return TupleV{ex.freshSlice(ex.strSeq(t), "body"), ex.nilErr()}, true
			}
			if ef := pk.Func("EncryptOAEP"); ef != nil {
				ex.hooks[ef.String()] = func(ex *Ex, a []Value) (Value, bool) {
					ex.assert("encrypted body: whole body with the given key", b.Bool(kind == 2), nil)
					ex.assertEq("encrypted body: the body's bytes", StrV{ex.content(asSlice(ex, a[2]))}, StrV{ex.strSeq(b.Var("bodybytes", US("Str")))})
					if encErr = !ex.choose(b.Var("encok", BoolS)); encErr {
						return TupleV{ex.nilSlice(), ex.anyErr("encrypt")}, true
					}
					t := b.App("oaep", US("Str"), ex.seqTerm(ex.content(asSlice(ex, a[2]))))
					useB(t)
					return TupleV{ex.freshSlice(ex.strSeq(t), "cipher"), ex.nilErr()}, true
				}
			}
			var hlist *SpecList
			hookHeaderEncode(ex, w, func(h *Term) {
				hlist = strList(ex, h)
				ex.lists = append(ex.lists, hlist)
				if blist != nil {
					hb, bb, hn, bn := hlist, blist, hlist.N, blist.N
					cl := escList(ex, fmt.Sprintf("cat%d", h.ID), b.Add(hn, bn), func(ex *Ex, j *Term) *Term {
						return b.Ite(b.SLt(j, hn), hb.Elem(ex, j).(*Term), bb.Elem(ex, b.Sub(j, hn)).(*Term))
					})
					ex.assume(b.Eq(xorFold(ex, cl, cl.N), b.BXor(xorFold(ex, hb, hn), xorFold(ex, bb, bn))))
					ex.assume(b.Eq(cl.P(ex, cl.N), b.Add(hb.P(ex, hn), bb.P(ex, bn))))
					ex.lists = append(ex.lists, cl)
				}
			})
			sv := StructV{F: append([]Value{}, ex.zero(mt).(StructV).F...)}
			sv.F[fieldIndex(mt, "Header")] = mkHeader(ex, w, id, prop, icc, ser, pv)
			sv.F[fieldIndex(mt, "Body")] = body
			o := ex.newObj("message", sv, mt)
			r := ex.callFn(fn, []Value{ex.ptrTo(o), key}, nil, "root").(TupleV)
			ex.ok("no-panic")
			failed := isErr(ex, r[1])
			if bodyErr || encErr {
				ex.assert("a body that cannot be encoded is an error", failed, nil)
				return
			}
			n := b.I(0)
			if B != nil {
				n = ex.slen(B)
			}
			if bodyKind == 2 && B == nil {
				ex.failNow("the body's bytes are sent", "the body is not encoded, or not encrypted with the given key")
				return
			}
			if !ex.choose(b.SLe(n, b.I(1023))) {
				ex.assert("size: a body longer than 1023 bytes is refused", failed, nil)
				return
			}
			if bodyKind > 0 {
				id = bodyID
			}
			wprop := prop
			if bodyKind == 2 && kind == 2 {
				wprop = withBit(ex, wprop, 10, b.T)
			}
			wprop = b.BOr(b.BAnd(wprop, b.C(16, 0xfc00)), b.Extract(15, 0, n))
			if withP {
				wprop = withBit(ex, wprop, 13, b.T)
			} else if ex.choose(bitAt(ex, prop, 13)) {
				ex.assert("sub-packet bit without sub-packet data is refused", failed, nil)
				return
			}
			if !ex.assert("encodes", b.Not(failed), nil) {
				return
			}
			H := headerBytes(ex, id, wprop, icc, ser, b.Bool(withP), sum, seq)
			hl := strList(ex, H)
			if hlist == nil || !ex.valid(b.And(b.Eq(hl.N, hlist.N), b.Eq(H, ex.termOf(hlist)))) {
				if hlist != nil {
					ex.assert("size: header carries id, attributes, length and serial of the message", b.Eq(H, ex.termOf(hlist)), nil)
				} else {
					ex.failNow("header encoded", "Header.Encode is not called")
				}
				return
			}
			ex.ok("size: header carries id, attributes, length and serial of the message")
			hl = hlist
			chk := xorFold(ex, hl, hl.N)
			if blist != nil {
				chk = b.BXor(chk, xorFold(ex, blist, blist.N))
			}
			flag := elems(b.C(8, 0x7e))
			want := ex.cat(flag, hl.all(ex))
			if blist != nil {
				want = ex.cat(want, blist.all(ex))
			}
			want = ex.cat(ex.cat(want, escByte(ex, chk)), flag)
			got := StrV{ex.content(asSlice(ex, r[0]))}
			if blist != nil && len(ex.lists) > 2 {
				alt := ex.cat(ex.cat(ex.cat(flag, ex.lists[2].all(ex)), escByte(ex, chk)), flag)
				if ex.provEq(got, StrV{alt}) {
					ex.ok("frame is flag, escaped header, body and checksum, flag")
					return
				}
			}
			ex.assertEq("frame is flag, escaped header, body and checksum, flag", got, StrV{want})
		})
	}})
	js = append(js, job{"msg:decode", func(w *World, e *Engine) {
		fn := w.method(mt, "Decode")
		if !w.need(e, fn, "Message.Decode") {
			return
		}
		e.Explore(func(ex *Ex) { msgDecodeRoot(ex, w, mt, ht, pt) })
	}})
	js = append(js, job{"msg:lemma", msgLemma})
	return js
}

// termOf: the string a strList was built over.
func (ex *Ex) termOf(l *SpecList) *Term {
	return l.Elem(ex, ex.b.I(0)).(*Term).Args[0]
}

// msgLemma: code-independent facts that connect the two halves. For every byte
// x: its escaped image has no flag byte, does not end in the escape byte, and
// reads back as x whatever follows; changing one operand changes an XOR.
func msgLemma(w *World, e *Engine) {
	e.Explore(func(ex *Ex) {
		b := ex.b
		x, next := b.Var("x", BV(8)), b.Var("next", BV(8))
		ex.addInput("x", x)
		s := ex.cat(escByte(ex, x), elems(next))
		vs, _ := s.concrete()
		n := len(vs) - 1
		for i := 0; i < n; i++ {
			ex.assert("escaped image has no flag byte", b.Ne(vs[i].(*Term), b.C(8, 0x7e)), nil)
		}
		ex.assert("escaped image does not end in the escape byte", b.Ne(vs[n-1].(*Term), b.C(8, 0x7d)), nil)
		first, second := vs[0].(*Term), vs[1].(*Term)
		if ex.choose(b.Ne(first, b.C(8, 0x7d))) {
			ex.assert("reads back", b.And(b.Eq(first, x), b.Bool(n == 1)), nil)
			return
		}
		ex.assert("escape byte is followed by 1 or 2", b.Or(b.Eq(second, b.C(8, 1)), b.Eq(second, b.C(8, 2))), nil)
		ex.assert("reads back", b.And(b.Eq(x, b.Ite(b.Eq(second, b.C(8, 1)), b.C(8, 0x7d), b.C(8, 0x7e))), b.Bool(n == 2)), nil)
	})
	e.Explore(func(ex *Ex) {
		// two byte lists that differ in one element: the folds agree before it,
		// and from it on differ by a constant d != 0 (induction on the index)
		b := ex.b
		f, g, x, y, d := b.Var("fold", BV(8)), b.Var("fold'", BV(8)), b.Var("a", BV(8)), b.Var("b", BV(8)), b.Var("d", BV(8))
		ex.assert("XOR differs after the changed byte", b.Implies(b.And(b.Eq(f, g), b.Ne(x, y)), b.Ne(b.BXor(f, x), b.BXor(g, y))), nil)
		ex.assert("XOR difference is kept by equal bytes", b.Implies(b.Eq(g, b.BXor(f, d)), b.Eq(b.BXor(g, x), b.BXor(b.BXor(f, x), d))), nil)
		// the checksum of a frame makes the XOR of everything before it equal to it
		ex.assert("checksum of header and body in either order", b.Eq(b.BXor(b.BXor(b.C(8, 0), x), y), b.BXor(b.BXor(b.C(8, 0), y), x)), nil)
	})
}

func msgDecodeRoot(ex *Ex, w *World, mt, ht, pt *types.Named) {
	b := ex.b
	fn := w.method(mt, "Decode")
	pk := w.Pkgs["protocol"]
	D := b.Var("D", US("Str"))
	ex.addInput("D", D)
	n := ex.slen(D)
	ex.addInput("len(D)", n)
	at := func(i *Term) *Term { return b.App("at", BV(8), D, i) }
	c8 := func(v uint64) *Term { return b.C(8, v) }
	back := func(i int64) *Term { return b.Sub(n, b.I(i)) }
	data := ex.freshSlice(ex.strSeq(D), "data")
	reject := ""
	end, sum := b.I(1), c8(0)
	if !ex.choose(b.And(b.SLe(b.I(2), n), b.Eq(at(b.I(0)), c8(0x7e)), b.Eq(at(back(1)), c8(0x7e)))) {
		reject = "no flag byte at both ends"
	} else if !ex.choose(b.SLe(b.I(3), n)) {
		reject = "nothing between the flags"
	} else {
		last := at(back(2))
		if ex.choose(b.And(b.SLe(b.I(4), n), b.Eq(at(back(3)), c8(0x7d)))) {
			end = back(3)
			if ex.choose(b.Eq(last, c8(1))) {
				sum = c8(0x7d)
			} else if ex.choose(b.Eq(last, c8(2))) {
				sum = c8(0x7e)
			} else {
				reject = "checksum escape malformed"
			}
		} else {
			end, sum = back(2), last
			if ex.choose(b.Eq(last, c8(0x7d))) {
				reject = "checksum is a bare escape byte"
			}
		}
	}
	N := b.Var("ntok", BV(64))
	ex.assume(b.And(b.SLe(b.I(0), N), b.SLe(N, b.I(1<<40))))
	l := &SpecList{Key: "tok", N: N}
	tok := func(k *Term) *Term { return b.App("tok", BV(8), k) }
	if reject == "" {
		l.P = func(ex *Ex, k *Term) *Term {
			t := b.App("P:tok", BV(64), k)
			if kk := fmt.Sprintf("P%d", t.ID); !ex.seen[kk] {
				ex.seen[kk] = true
				ex.assume(b.And(b.SLe(b.I(1), t), b.SLe(t, end)))
				ex.assume(b.Eq(b.App("P:tok", BV(64), b.I(0)), b.I(1)))
			}
			return t
		}
		l.Elem = func(ex *Ex, k *Term) Value { return tok(k) }
		good := ex.chooseN(2) == 0
		kb := b.Var("kbad", BV(64))
		if good {
			ex.assume(b.Eq(l.P(ex, N), end))
		} else {
			ex.assume(b.And(b.SLe(b.I(0), kb), b.SLt(kb, b.I(1<<40))))
			reject = "escape byte not followed by 1 or 2"
		}
		l.Unfold = func(ex *Ex, k *Term) int {
			lim := N
			if !good {
				lim = kb
			}
			p := l.P(ex, k)
			one := b.Add(p, b.I(1))
			if !ex.choose(b.SLt(k, lim)) {
				ex.assume(b.Eq(k, lim))
				if good {
					return 0
				}
				ex.assume(b.And(b.SLt(p, end), b.Eq(at(p), c8(0x7d))))
				ex.assume(b.Or(b.SLe(end, one), b.And(b.Ne(at(one), c8(1)), b.Ne(at(one), c8(2)))))
				return 2
			}
			ex.assume(b.SLt(p, end))
			nextP := l.P(ex, b.Add(k, b.I(1)))
			if ex.choose(b.Ne(at(p), c8(0x7d))) {
				ex.assume(b.And(b.Eq(tok(k), at(p)), b.Eq(nextP, one)))
				return 1
			}
			ex.assume(b.SLt(one, end))
			ex.assume(b.Eq(nextP, b.Add(p, b.I(2))))
			if ex.choose(b.Eq(at(one), c8(1))) {
				ex.assume(b.Eq(tok(k), c8(0x7d)))
			} else {
				ex.assume(b.Eq(at(one), c8(2)))
				ex.assume(b.Eq(tok(k), c8(0x7e)))
			}
			return 1
		}
		ex.lists = append(ex.lists, l)
	}
	tb := listBase{l}
	var id, prop, icc, ser, psum, pseq *Term
	hl := int64(12)
	iccOf := func(at func(i int64) *Term) (*Term, *Term) {
		var as []*Term
		for i := int64(4); i < 10; i++ {
			as = append(as, at(i))
		}
		return b.App("iccok", BoolS, as...), b.App("icc", BV(64), as...)
	}
	kind := 0
	keyed := func() Value { return keyArg(ex, kind, "privkey") }
	encrypted, decOK := false, true
	bodyOut := "" // how the body must end up
	var rest *Seq
	if reject == "" {
		if !ex.choose(b.And(b.SLt(b.I(0), N), b.Eq(xorFold(ex, l, N), sum))) {
			reject = "checksum differs"
		} else if !ex.choose(b.SLe(b.I(12), N)) {
			reject = "header incomplete"
		} else {
			tk := func(i int64) *Term { return tok(b.I(i)) }
			okd, iv := iccOf(tk)
			be := func(i int64) *Term { return b.Concat(tk(i), tk(i+1)) }
			id, prop, icc, ser = be(0), be(2), iv, be(10)
			ex.addInput("header id", id)
			ex.addInput("header attributes", prop)
			if !ex.choose(okd) {
				reject = "terminal number is not decimal"
			} else if ex.choose(bitAt(ex, prop, 13)) {
				hl = 16
				psum, pseq = be(12), be(14)
				if !ex.choose(b.SLe(b.I(16), N)) {
					reject = "sub-packet header incomplete"
				}
			}
		}
	}
	if reject == "" {
		rest = ex.win(tb, b.I(hl), b.Sub(N, b.I(hl)))
		if !ex.choose(b.Eq(b.Sub(N, b.I(hl)), b.Zext(64, b.BAnd(prop, b.C(16, 0x3ff))))) {
			bodyOut = "length differs"
		} else if ex.choose(bitAt(ex, prop, 10)) {
			encrypted = true
			kind = ex.chooseN(3)
			if kind != 2 {
				reject = "body encrypted and no key"
			}
		}
	}
	// contracts
	if hd := w.method(ht, "Decode"); hd != nil {
		ex.hooks[hd.String()] = func(ex *Ex, a []Value) (Value, bool) {
			S := ex.content(asSlice(ex, a[1]))
			m := ex.seqLen(S)
			if !ex.choose(b.SLe(b.I(12), m)) {
				return ex.anyErr("header"), true
			}
			x := func(i int64) *Term { return ex.byteAt(S, b.I(i)) }
			okd, iv := iccOf(x)
			if !ex.choose(okd) {
				return ex.anyErr("header"), true
			}
			be := func(i int64) *Term { return b.Concat(x(i), x(i+1)) }
			p := asPtr(ex, a[0])
			sv := StructV{F: append([]Value{}, ex.load(p).(StructV).F...)}
			if ex.choose(bitAt(ex, be(2), 13)) {
				if !ex.choose(b.SLe(b.I(16), m)) {
					return ex.anyErr("header"), true
				}
				q := StructV{F: append([]Value{}, ex.zero(pt).(StructV).F...)}
				q.F[fieldIndex(pt, "Sum")] = be(12)
				q.F[fieldIndex(pt, "Seq")] = be(14)
				sv.F[fieldIndex(ht, "Packet")] = ex.ptrTo(ex.newObj("packet", q, pt))
			}
			sv.F[fieldIndex(ht, "MsgID")] = be(0)
			sv.F[fieldIndex(ht, "Property")] = be(2)
			sv.F[fieldIndex(ht, "IccID")] = iv
			sv.F[fieldIndex(ht, "MsgSerialNo")] = be(10)
			ex.store(p, sv)
			return ex.nilErr(), true
		}
	}
	plain := b.Var("plain", US("Str"))
	if df := pk.Func("DecryptOAEP"); df != nil {
		ex.hooks[df.String()] = func(ex *Ex, a []Value) (Value, bool) {
			ex.assert("encrypted body: only a body marked as encrypted is decrypted", b.Bool(encrypted && kind == 2), nil)
			if rest != nil {
				ex.assertEq("encrypted body: the whole body is decrypted", StrV{ex.content(asSlice(ex, a[2]))}, StrV{rest})
			}
			if decOK = ex.choose(b.Var("decok", BoolS)); !decOK {
				return TupleV{ex.nilSlice(), ex.anyErr("decrypt")}, true
			}
			return TupleV{ex.freshSlice(ex.strSeq(plain), "plain"), ex.nilErr()}, true
		}
	}
	known := b.Var("registered", BoolS)
	isPacket := b.Var("ispacket", BoolS)
	entDecoded, entOK := false, false
	entID := b.Var("entity", BV(32))
	ex.assume(b.Ne(entID, b.C(32, 0)))
	ent := IfaceV{Nil: b.F, Id: entID}
	if g := w.registryVar(); g != nil {
		creator := FuncV{Nil: b.F, Mod: func(ex *Ex, a []Value) Value { return ent }}
		mo := ex.newObj("entityMapper", MapV{Base: &SymMap{
			Has: func(ex *Ex, k Value) *Term {
				if id == nil {
					return known
				}
				ex.assertEq("body type is chosen by the header's id", k, id)
				return known
			},
			Val: func(ex *Ex, k Value) Value { return creator },
		}}, nil)
		ex.globals[g] = ex.newObj("registry", MapRef{O: mo, Nil: b.F}, nil)
	}
	decodeHook := func(packet bool) func(ex *Ex, a []Value) (Value, bool) {
		return func(ex *Ex, a []Value) (Value, bool) {
			s := asSlice(ex, a[1])
			entDecoded = true
			if !packet {
				ex.assert("body: what carries a data packet is decoded with it", b.Not(isPacket), nil)
			}
			want := rest
			if encrypted {
				want = ex.strSeq(plain)
			}
			if want == nil {
				want = emptySeq
			}
			ex.assertEq("body bytes are the unescaped bytes after the header", StrV{ex.content(s)}, StrV{want})
			if s.Arr.O != nil && s.Arr.O == data.Arr.O {
				ex.failNow("body: decoded values share no memory with the received bytes", "the entity decodes from the input array")
			} else {
				ex.ok("body: decoded values share no memory with the received bytes")
			}
			entOK = ex.choose(b.Var("bodyok", BoolS))
			err := ex.nilErr()
			if !entOK {
				err = ex.anyErr("entity")
			}
			if packet {
				return err, true
			}
			return TupleV{b.Var("count", BV(64)), err}, true
		}
	}
	ex.hooks["iface:Decode"] = decodeHook(false)
	ex.hooks["iface:DecodePacket"] = decodeHook(true)
	ex.hooks["assert:"+pk.Pkg.Path()+".EntityPacket"] = func(ex *Ex, a []Value) (Value, bool) {
		if ex.choose(isPacket) {
			return TupleV{a[0], b.T}, true
		}
		return TupleV{ex.nilIface(), b.F}, true
	}
	o := ex.newObj("message", ex.zero(mt), mt)
	r := ex.callFn(fn, []Value{ex.ptrTo(o), data, keyed()}, nil, "root")
	ex.ok("no-panic")
	failed := isErr(ex, r)
	if reject == "" && encrypted && !decOK {
		reject = "body cannot be decrypted"
	}
	if reject != "" {
		ex.assert("rejected: "+reject, failed, nil)
		return
	}
	if !ex.assert("accepts", b.Not(failed), nil) {
		return
	}
	got := ex.load(ex.ptrTo(o)).(StructV)
	gh := got.F[fieldIndex(mt, "Header")].(StructV)
	ex.assertEq("header MsgID", gh.F[fieldIndex(ht, "MsgID")], id)
	ex.assertEq("header Property", gh.F[fieldIndex(ht, "Property")], prop)
	ex.assertEq("header IccID", gh.F[fieldIndex(ht, "IccID")], icc)
	ex.assertEq("header MsgSerialNo", gh.F[fieldIndex(ht, "MsgSerialNo")], ser)
	pp := gh.F[fieldIndex(ht, "Packet")].(PtrV)
	if hl == 12 {
		ex.assert("header Packet", pp.Nil, nil)
	} else if ex.assert("header Packet", b.Not(pp.Nil), nil) {
		pv := ex.load(pp).(StructV)
		ex.assertEq("header Packet.Sum", pv.F[fieldIndex(pt, "Sum")], psum)
		ex.assertEq("header Packet.Seq", pv.F[fieldIndex(pt, "Seq")], pseq)
	}
	gb := got.F[fieldIndex(mt, "Body")].(IfaceV)
	if bodyOut == "" && ex.choose(known) {
		if !entDecoded {
			ex.failNow("body of a registered id is decoded", "the entity's Decode is not called")
			return
		}
		if entOK {
			ex.assert("body is the decoded value of the registered type", b.And(b.Not(gb.Nil), b.Eq(gb.Id, entID)), nil)
			return
		}
	}
	ex.assert("body absent when unknown, of another length or malformed", gb.Nil, nil)
	if bodyOut != "" {
		ex.assert("body of another length is not decoded", b.Bool(!entDecoded), nil)
	}
}

// registryVar: the package variable holding the message types by id, found by
// its type (a map from uint16 to creator functions).
func (w *World) registryVar() *ssa.Global {
	var found *ssa.Global
	for _, n := range sortedMembers(w.Pkgs["protocol"]) {
		g, ok := w.Pkgs["protocol"].Members[n].(*ssa.Global)
		if !ok {
			continue
		}
		m, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map)
		if !ok {
			continue
		}
		sg, ok := m.Elem().Underlying().(*types.Signature)
		if !ok || sg.Params().Len() != 0 || sg.Results().Len() != 1 {
			continue
		}
		if nt, ok := sg.Results().At(0).Type().(*types.Named); ok && nt.Obj().Name() == "Entity" && found == nil {
			found = g
		}
	}
	return found
}
func sortedMembers(p *ssa.Package) []string {
	m := map[string]bool{}
	for n := range p.Members {
		m[n] = true
	}
	return sortedKeys(m)
}
