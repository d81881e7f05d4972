package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Proof roots for the stream codec: ProtocolCodec.Receive against a ghost
// stream T (whatever is read is the next bytes of T), and ProtocolCodec.Send.

// fieldsByType lists the fields of a struct type whose type prints as s.
func fieldsByType(t types.Type, s string) []int {
	var r []int
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == s {
			r = append(r, i)
		}
	}
	return r
}

// newCodec runs Protocol.NewCodec on an opaque connection and returns the codec.
func newCodec(ex *Ex, w *World, key PtrV) (PtrV, *types.Named, bool) {
	b := ex.b
	pt := w.namedIn("go808", "Protocol")
	fn := w.method(pt, "NewCodec")
	if fn == nil {
		ex.failNow("exists", "Protocol.NewCodec not found")
		return PtrV{}, nil, false
	}
	pv := StructV{F: append([]Value{}, ex.zero(pt).(StructV).F...)}
	for _, i := range fieldsByType(pt, "*crypto/rsa.PrivateKey") {
		pv.F[i] = key
	}
	rw := IfaceV{Nil: b.F, Id: b.C(32, 4242)}
	ex.hooks["assert:io.Closer"] = func(ex *Ex, a []Value) (Value, bool) {
		if ex.choose(b.Var("closable", BoolS)) {
			return TupleV{a[0], b.T}, true
		}
		return TupleV{ex.nilIface(), b.F}, true
	}
	r := ex.callFn(fn, []Value{ex.ptrTo(ex.newObj("protocol", pv, pt)), rw}, nil, "root")
	tv, ok := r.(TupleV)
	if !ok || len(tv) != 2 {
		ex.failNow("exists", "unexpected result of NewCodec")
		return PtrV{}, nil, false
	}
	ex.assert("a codec is created", tv[1].(IfaceV).Nil, nil)
	iv, _ := tv[0].(IfaceV)
	p, okp := iv.V.(PtrV)
	if iv.T == nil || !okp {
		ex.failNow("a codec is created", "unknown codec")
		return PtrV{}, nil, false
	}
	pp, ok := iv.T.(*types.Pointer)
	if !ok {
		ex.failNow("a codec is created", "codec is not a pointer")
		return PtrV{}, nil, false
	}
	return p, pp.Elem().(*types.Named), true
}

func opaqueMessage(ex *Ex, mt, ht *types.Named, tag string) Value {
	b := ex.b
	sv := StructV{F: append([]Value{}, ex.zero(mt).(StructV).F...)}
	hv := StructV{F: append([]Value{}, ex.zero(ht).(StructV).F...)}
	hv.F[fieldIndex(ht, "MsgID")] = b.Var(tag+".MsgID", BV(16))
	hv.F[fieldIndex(ht, "MsgSerialNo")] = b.Var(tag+".MsgSerialNo", BV(16))
	hv.F[fieldIndex(ht, "IccID")] = b.Var(tag+".IccID", BV(64))
	hv.F[fieldIndex(ht, "Property")] = b.Var(tag+".Property", BV(16))
	sv.F[fieldIndex(mt, "Header")] = hv
	sv.F[fieldIndex(mt, "Body")] = IfaceV{Nil: b.Var(tag+".nobody", BoolS), Id: b.Var(tag+".body", BV(32))}
	return sv
}

func recvJobs(w *World) []job {
	if w.Pkgs["go808"] == nil {
		return nil
	}
	mt, ht := w.namedIn("protocol", "Message"), w.namedIn("protocol", "Header")
	return []job{
		{"recv:NewCodec", func(w *World, e *Engine) {
			e.Explore(func(ex *Ex) {
				p, ct, ok := newCodec(ex, w, ex.ptrNew("privkey", OpqV{Kind: "privkey"}))
				if !ok {
					return
				}
				ex.ok("no-panic")
				sv := ex.load(p).(StructV)
				for _, i := range fieldsByType(ct, "*bytes.Buffer") {
					bp, _ := sv.F[i].(PtrV)
					if bp.O == nil {
						ex.failNow("a new codec has an empty buffer of its own", "no buffer")
						continue
					}
					_, bv := ex.buf(bp)
					ex.assert("a new codec has an empty buffer of its own", ex.b.Eq(ex.seqLen(bv.S), ex.b.I(0)), nil)
				}
				p2, _, ok := newCodec(ex, w, ex.ptrNew("privkey", OpqV{Kind: "privkey"}))
				if !ok {
					return
				}
				sv2 := ex.load(p2).(StructV)
				for _, i := range fieldsByType(ct, "*bytes.Buffer") {
					b1, _ := sv.F[i].(PtrV)
					b2, _ := sv2.F[i].(PtrV)
					ex.assert("a new codec has an empty buffer of its own", ex.b.Bool(b1.O != nil && b1.O != b2.O), nil)
				}
			})
		}},
		{"recv:Receive", func(w *World, e *Engine) {
			e.Explore(func(ex *Ex) { recvRoot(ex, w, mt, ht) })
		}},
		{"send:Send", func(w *World, e *Engine) {
			e.Explore(func(ex *Ex) { codecSendRoot(ex, w, mt, ht) })
		}},
	}
}

const maxFrame = 2 + 2*(16+1023+1)

func recvRoot(ex *Ex, w *World, mt, ht *types.Named) {
	b := ex.b
	key := ex.ptrNew("privkey", OpqV{Kind: "privkey"})
	cp, ct, ok := newCodec(ex, w, key)
	if !ok {
		return
	}
	fn := w.method(ct, "Receive")
	if fn == nil {
		ex.failNow("exists", "Receive not found")
		return
	}
	sv := ex.load(cp).(StructV)
	fs := fieldsByType(ct, "*bytes.Buffer")
	if len(fs) != 1 {
		ex.unsupported("the receive buffer is not one bytes.Buffer")
	}
	bp := sv.F[fs[0]].(PtrV)
	T := b.Var("stream", US("Str"))
	L := ex.slen(T)
	at := func(i *Term) *Term { return b.App("at", BV(8), T, i) }
	flag := b.C(8, 0x7e)
	base := StrBase{T}
	win := func(from, n *Term) *Seq { return ex.win(base, from, n) }
	d0 := b.Var("buffered", BV(64))
	ex.addInput("buffered", d0)
	ex.assume(b.And(b.SLe(b.I(0), d0), b.SLt(d0, b.I(1<<20)), b.SLe(d0, L), b.SLt(L, b.I(1<<40))))
	q := b.Var("closing", BV(64)) // index of the first flag byte after the first byte
	ex.addInput("closing flag at", q)
	ex.assume(b.And(b.SLe(b.I(1), q), b.SLt(q, b.I(1<<40))))
	first := at(b.I(0))
	ex.addInput("first byte", first)
	ex.set(bp, BufV{S: win(b.I(0), d0)})

	// q is the first flag after the first byte: instantiated at every byte looked at
	ex.atHookT, ex.atHook = T, func(i *Term) {
		k := fmt.Sprintf("q%d", i.ID)
		if ex.seen[k] {
			return
		}
		ex.seen[k] = true
		inside := b.And(b.SLe(b.I(1), i), b.SLt(i, q))
		ex.assume(b.And(b.Implies(inside, b.Ne(at(i), flag)), b.Implies(b.Eq(i, q), b.Eq(at(i), flag))))
		ex.indexFact(i, b.SLe(i, q))
	}
	// reads: one read per iteration
	inv := func(d *Term) *Term { // nothing can be delivered from d buffered bytes
		return b.Or(b.Eq(d, b.I(0)), b.And(b.Eq(first, flag), b.SLe(d, q)))
	}
	readPos := func(d, k *Term) *Term { return b.App("readpos", BV(64), d, k) }
	reads := &SpecList{Key: "reads", N: b.I(1 << 40)}
	reads.Unfold = func(ex *Ex, k *Term) int { return 1 }
	var dCur *Term // bytes taken from the stream so far
	form := func(strong bool) func(ex *Ex, init Value, k *Term) (Value, bool) {
		return func(ex *Ex, init Value, k *Term) (Value, bool) {
			bv, ok := init.(BufV)
			if !ok {
				return nil, false
			}
			d := ex.seqLen(bv.S)
			ex.assume(b.Eq(readPos(d, b.I(0)), d))
			t := readPos(d, k)
			switch {
			case k.Op == OVar: // loop head: the invariant
				dCur = t
				ex.assume(b.And(b.SLe(d, t), b.SLe(t, L)))
				if strong {
					ex.assume(inv(t))
				}
			default: // entry and back edge: it must hold
				if strong && !ex.valid(inv(t)) {
					return nil, false
				}
			}
			return BufV{S: win(b.I(0), t)}, true
		}
	}
	// a loop that reads before it looks keeps that nothing can be delivered yet;
	// one that looks first needs only that the buffer holds what was read
	reads.Forms = []func(ex *Ex, init Value, k *Term) (Value, bool){form(true), form(false)}
	ex.lists = append(ex.lists, reads)

	dCur = d0
	readErr, decoded, decErr := false, false, false
	doRead := func(ex *Ex, p SliceV, min *Term) (*Term, bool) {
		_, bv := ex.buf(bp)
		d := ex.seqLen(bv.S)
		dCur = d
		ex.assertEq("no buffered byte is lost or changed before the frame is complete", StrV{bv.S}, StrV{win(b.I(0), d)})
		ex.assert("waits for input only while no frame is complete", inv(d), nil)
		if readErr = !ex.choose(ex.fresh("readok", BoolS)); readErr {
			return b.I(0), false
		}
		var n *Term
		if d.Op == OApp && d.Name == "readpos" {
			n = b.Sub(readPos(d.Args[0], b.Add(d.Args[1], b.I(1))), d)
		} else {
			n = ex.fresh("nread", BV(64))
		}
		ex.assume(b.And(b.SLe(min, n), b.SLe(n, p.Len)))
		ex.assume(b.SLe(b.Add(d, n), L))
		dCur = b.Add(d, n)
		ex.sliceStore(p, b.I(0), win(d, n))
		return n, true
	}
	ex.hooks["io.ReadAtLeast"] = func(ex *Ex, a []Value) (Value, bool) {
		p := asSlice(ex, a[1])
		min := asTerm(ex, a[2])
		ex.assert("reads into a buffer with room", b.And(b.SLe(min, p.Len), b.SLt(b.I(0), p.Len)), nil)
		ex.assert("waits for the next byte only", b.SLe(min, b.I(1)), nil)
		ex.assert("a read asks for at least one byte", b.SLe(b.I(1), min), nil)
		n, ok := doRead(ex, p, min)
		if !ok {
			return TupleV{b.I(0), ex.anyErr("read")}, true
		}
		return TupleV{n, ex.nilErr()}, true
	}
	ex.hooks["iface:Read"] = func(ex *Ex, a []Value) (Value, bool) {
		p := asSlice(ex, a[1])
		ex.assert("reads into a buffer with room", b.SLt(b.I(0), p.Len), nil)
		n, ok := doRead(ex, p, b.I(0))
		if !ok {
			return TupleV{b.I(0), ex.anyErr("read")}, true
		}
		return TupleV{n, ex.nilErr()}, true
	}
	ex.hooks["bytes.IndexByte"] = func(ex *Ex, a []Value) (Value, bool) {
		s := ex.content(asSlice(ex, a[0]))
		n := ex.seqLen(s)
		if c := asTerm(ex, a[1]); !c.isConst() || c.Val != 0x7e || !ex.provEq(StrV{s}, StrV{win(b.I(1), n)}) {
			return nil, false
		}
		if ex.choose(b.SLt(q, b.Add(n, b.I(1)))) {
			return b.Sub(q, b.I(1)), true
		}
		return b.I(-1), true
	}
	want := opaqueMessage(ex, mt, ht, "decoded")
	if df := w.method(mt, "Decode"); df != nil {
		ex.hooks[df.String()] = func(ex *Ex, a []Value) (Value, bool) {
			if decoded {
				ex.failNow("one frame is decoded per receive", "Decode called twice")
			}
			decoded = true
			got := ex.content(asSlice(ex, a[1]))
			ex.assert("a frame is decoded only when its closing flag is buffered", b.And(b.SLt(q, dCur), b.Eq(first, flag)), nil)
			ex.assertEq("the frame is the bytes from the first flag to the next", StrV{got}, StrV{win(b.I(0), b.Add(q, b.I(1)))})
			ks := ex.content(asSlice(ex, a[2]))
			kok := false
			if n := ex.seqLen(ks); n.isConst() && n.Val == 1 {
				if kp, ok := ex.seqAt(ks, b.I(0)).(PtrV); ok && kp.O == key.O {
					kok = true
				}
			}
			ex.assert("the frame is decoded with the server's private key", b.Bool(kok), nil)
			if decErr = !ex.choose(b.Var("decodeok", BoolS)); decErr {
				return ex.anyErr("decode"), true
			}
			ex.store(asPtr(ex, a[0]), want)
			return ex.nilErr(), true
		}
	}
	r := ex.callFn(fn, []Value{cp}, nil, "root")
	ex.ok("no-panic")
	tv, _ := r.(TupleV)
	if len(tv) != 2 {
		ex.failNow("exists", "unexpected result of Receive")
		return
	}
	failed := isErr(ex, tv[1])
	_, bv := ex.buf(bp)
	rest := win(b.Add(q, b.I(1)), b.Sub(dCur, b.Add(q, b.I(1))))
	switch {
	case decoded:
		ex.assert("an error is returned exactly when the frame is not accepted", b.Eq(failed, b.Bool(decErr)), nil)
		ex.assertEq("bytes following the frame are kept for the next receive", StrV{bv.S}, StrV{rest})
		if !decErr {
			iv, _ := tv[0].(IfaceV)
			if iv.T == nil || !types.Identical(iv.T, mt) {
				ex.failNow("the decoded message is delivered", "the result is not a protocol.Message")
				return
			}
			ex.assertEq("the decoded message is delivered", iv.V, want)
		}
	case readErr:
		ex.assert("a failed read is an error", failed, nil)
		ex.assertEq("no buffered byte is lost or changed before the frame is complete", StrV{bv.S}, StrV{win(b.I(0), dCur)})
	default:
		ex.assert("nothing is delivered without a frame", failed, nil)
		long := b.And(b.SLe(b.I(maxFrame), q), b.SLe(b.I(maxFrame), dCur))
		ex.assert("an error only for a stream without flag byte, a failed read, a bad frame or one longer than any frame",
			b.And(b.SLt(b.I(0), dCur), b.Or(b.Ne(first, flag), long)), nil)
	}
}

func codecSendRoot(ex *Ex, w *World, mt, ht *types.Named) {
	b := ex.b
	cp, ct, ok := newCodec(ex, w, ex.ptrNew("privkey", OpqV{Kind: "privkey"}))
	if !ok {
		return
	}
	fn := w.method(ct, "Send")
	set := w.method(ct, "SetPublicKey")
	if fn == nil || set == nil {
		ex.failNow("exists", "Send or SetPublicKey not found")
		return
	}
	var pub PtrV
	keyed := ex.chooseN(2) == 1
	if keyed {
		pub = ex.ptrNew("pubkey", OpqV{Kind: "pubkey"})
		ex.callFn(set, []Value{cp, pub}, nil, "root")
	}
	msg := opaqueMessage(ex, mt, ht, "message")
	hv := msg.(StructV).F[fieldIndex(mt, "Header")].(StructV)
	prop := hv.F[fieldIndex(ht, "Property")].(*Term)
	encoded, encErr, wrote, wErr := 0, false, 0, false
	E := b.Var("encoded", US("Str"))
	enc := func(ptr bool) func(ex *Ex, a []Value) (Value, bool) {
		return func(ex *Ex, a []Value) (Value, bool) {
			encoded++
			v := a[0]
			if ptr {
				v = ex.load(asPtr(ex, a[0]))
			}
			ex.assertEq("the message is encoded as given", v, msg)
			ks := ex.content(asSlice(ex, a[1]))
			n := ex.seqLen(ks)
			has := false
			if n.isConst() && n.Val > 0 {
				kp, okp := ex.seqAt(ks, b.I(0)).(PtrV)
				has = okp && kp.O != nil
				if has {
					ex.assert("encrypted with the terminal's key", b.Bool(keyed && kp.O == pub.O), nil)
				}
			} else if !n.isConst() {
				ex.unsupported("unknown number of keys")
			}
			ex.assert("encrypted exactly when a key is set and the header asks for it", b.Eq(b.Bool(has), b.And(b.Bool(keyed), bitAt(ex, prop, 10))), nil)
			if encErr = !ex.choose(b.Var("encodeok", BoolS)); encErr {
				return TupleV{ex.nilSlice(), ex.anyErr("encode")}, true
			}
			return TupleV{ex.freshSlice(ex.strSeq(E), "frame"), ex.nilErr()}, true
		}
	}
	for _, m := range []*ssa.Function{w.method(mt, "Encode")} {
		if m != nil {
			_, isPtr := m.Signature.Recv().Type().(*types.Pointer)
			ex.hooks[m.String()] = enc(isPtr)
		}
	}
	ex.hooks["iface:Write"] = func(ex *Ex, a []Value) (Value, bool) {
		wrote++
		s := asSlice(ex, a[1])
		ex.assert("nothing is written unless encoded", b.Bool(encoded > 0 && !encErr), nil)
		ex.assertEq("exactly the encoded frame is written", StrV{ex.content(s)}, StrV{ex.strSeq(E)})
		if wErr = !ex.choose(b.Var("writeok", BoolS)); wErr {
			n := ex.fresh("nw", BV(64))
			ex.assume(b.And(b.SLe(b.I(0), n), b.SLe(n, s.Len)))
			return TupleV{n, ex.anyErr("write")}, true
		}
		return TupleV{s.Len, ex.nilErr()}, true
	}
	var arg Value = IfaceV{Nil: b.F, T: mt, V: msg}
	other := ex.chooseN(2) == 1
	if other {
		arg = IfaceV{Nil: b.F, T: types.Typ[types.String], V: StrV{emptySeq}}
	}
	r := ex.callFn(fn, []Value{cp, arg}, nil, "root")
	ex.ok("no-panic")
	failed := b.Not(r.(IfaceV).Nil)
	if other {
		ex.assert("anything but a message is refused", b.And(failed, b.Bool(wrote == 0)), nil)
		return
	}
	ex.assert("an error exactly when encoding or writing failed", b.Eq(failed, b.Bool(encErr || wErr)), nil)
	ex.assert("written once", b.Bool(encErr && wrote == 0 || !encErr && wrote == 1), nil)
}
