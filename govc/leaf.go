package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Proof roots for the leaf functions: attribute word and header, flag
// accessors, coordinates, BCD and time fields, parameters, location extras.

func (w *World) namedIn(pkg, name string) *types.Named {
	p := w.Pkgs[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

// root helper: the named function must exist, else the root fails.
func (w *World) need(e *Engine, fn *ssa.Function, what string) bool {
	if fn != nil {
		return true
	}
	e.Explore(func(ex *Ex) { ex.failNow("exists", what+" is not in the tree") })
	return false
}

func bitAt(ex *Ex, v *Term, off int) *Term {
	return ex.b.Eq(ex.b.Extract(off, off, v), ex.b.C(1, 1))
}
func withBit(ex *Ex, v *Term, off int, set *Term) *Term {
	b := ex.b
	w := v.S.W
	m := b.C(w, uint64(1)<<uint(off))
	return b.Ite(set, b.BOr(v, m), b.BAnd(v, b.C(w, ^(uint64(1)<<uint(off)))))
}

type accessor struct {
	typ, name string
	bit       int
	kind      string // "get" bool, "type" 0/1 int, "set"
}

var accessors = []accessor{
	{"T808_0x0200_Status", "GetAccState", 0, "get"},
	{"T808_0x0200_Status", "Positioning", 1, "get"},
	{"T808_0x0200_Status", "SetSouthLatitude", 2, "set"},
	{"T808_0x0200_Status", "SetWestLongitude", 3, "set"},
	{"T808_0x0200_Status", "GetLatitudeType", 2, "type"},
	{"T808_0x0200_Status", "GetLongitudeType", 3, "type"},
	{"AreaAttribute", "SetSouthLatitude", 6, "set"},
	{"AreaAttribute", "SetWestLongitude", 7, "set"},
	{"AreaAttribute", "GetLatitudeType", 6, "type"},
	{"AreaAttribute", "GetLongitudeType", 7, "type"},
	{"AreaAttribute", "SetExitAlarm", 5, "set"},
	{"AreaAttribute", "SetEnterAlarm", 3, "set"},
	{"T808_0x8606_SectionAttribute", "HasTimeLimit", 0, "get"},
	{"T808_0x8606_SectionAttribute", "HasSpeedLimit", 1, "get"},
	{"T808_0x8606_SectionAttribute", "SetTimeLimit", 0, "set"},
	{"T808_0x8606_SectionAttribute", "SetSpeedLimit", 1, "set"},
	{"T808_0x8606_SectionAttribute", "SetSouthLatitude", 2, "set"},
	{"T808_0x8606_SectionAttribute", "SetWestLongitude", 3, "set"},
	{"T808_0x8606_SectionAttribute", "GetLatitudeType", 2, "type"},
	{"T808_0x8606_SectionAttribute", "GetLongitudeType", 3, "type"},
	{"T808_0x8500_Flag", "SetLock", 0, "set"},
}

func flagJobs(w *World) []job {
	var js []job
	for _, a := range accessors {
		a := a
		js = append(js, job{"flag:" + a.typ + "." + a.name, func(w *World, e *Engine) {
			nt := w.namedIn("protocol", a.typ)
			if nt == nil || !w.need(e, w.method(nt, a.name), a.typ+"."+a.name) {
				return
			}
			fn := w.method(nt, a.name)
			e.Explore(func(ex *Ex) {
				b := ex.b
				wd, _ := ex.intWidth(nt)
				v := b.Var("value", BV(wd))
				ex.addInput("value", v)
				o := ex.newObj("flags", v, nt)
				args := []Value{ex.ptrTo(o)}
				set := b.Var("set", BoolS)
				if a.kind == "set" {
					args = append(args, set)
				}
				r := ex.callFn(fn, args, nil, "root")
				ex.ok("no-panic")
				bit := bitAt(ex, v, a.bit)
				switch a.kind {
				case "get":
					ex.assertEq("reads its bit", r, bit)
				case "type":
					rt := r.(*Term)
					ex.assertEq("reads its bit", r, b.Ite(bit, b.C(rt.S.W, 1), b.C(rt.S.W, 0)))
				}
				want := v
				if a.kind == "set" {
					want = withBit(ex, v, a.bit, set)
				}
				ex.assertEq("only the named bit changes", o.Val, want)
			})
		}})
	}
	for _, n := range []struct {
		name string
		w    int
	}{{"Byte", 8}, {"Uint16", 16}, {"Uint32", 32}} {
		n := n
		if fn := w.Pkgs["protocol"].Func("GetBit" + n.name); fn != nil {
			js = append(js, job{"flag:GetBit" + n.name, func(w *World, e *Engine) {
				e.Explore(func(ex *Ex) {
					b := ex.b
					v, off := b.Var("value", BV(n.w)), b.Var("offset", BV(64))
					ex.addInput("value", v)
					ex.addInput("offset", off)
					ex.assume(b.SLe(b.I(0), off))
					r := ex.callFn(fn, []Value{v, off}, nil, "root").(*Term)
					ex.ok("no-panic")
					for i := 0; i < n.w; i++ {
						ex.assert("reads the numbered bit", b.Implies(b.Eq(off, b.I(int64(i))), b.Eq(r, bitAt(ex, v, i))), nil)
					}
					ex.assert("no bit beyond the width", b.Implies(b.SLe(b.I(int64(n.w)), off), b.Not(r)), nil)
				})
			}})
		}
		if fn := w.Pkgs["protocol"].Func("SetBit" + n.name); fn != nil {
			js = append(js, job{"flag:SetBit" + n.name, func(w *World, e *Engine) {
				e.Explore(func(ex *Ex) {
					b := ex.b
					v, off, set := b.Var("value", BV(n.w)), b.Var("offset", BV(64)), b.Var("set", BoolS)
					ex.addInput("value", v)
					ex.addInput("offset", off)
					ex.assume(b.SLe(b.I(0), off))
					o := ex.newObj("value", v, nil)
					ex.callFn(fn, []Value{ex.ptrTo(o), off, set}, nil, "root")
					ex.ok("no-panic")
					got := o.Val.(*Term)
					for i := 0; i < n.w; i++ {
						ex.assert("changes the numbered bit only", b.Implies(b.Eq(off, b.I(int64(i))), b.Eq(got, withBit(ex, v, i, set))), nil)
					}
					ex.assert("no bit beyond the width", b.Implies(b.SLe(b.I(int64(n.w)), off), b.Eq(got, v)), nil)
				})
			}})
		}
	}
	if fn := w.helper("getGeoPoint"); fn != nil && fn.Signature.Params().Len() == 4 {
		js = append(js, job{"flag:getGeoPoint", func(w *World, e *Engine) {
			e.Explore(func(ex *Ex) {
				b := ex.b
				lat, lng := b.Var("lat", BV(32)), b.Var("lng", BV(32))
				s, ww := b.Var("south", BoolS), b.Var("west", BoolS)
				r := ex.callFn(fn, []Value{lat, s, lng, ww}, nil, "root").(TupleV)
				ex.ok("no-panic")
				for i, c := range []struct {
					v, neg *Term
					n      string
				}{{lat, s, "latitude"}, {lng, ww, "longitude"}} {
					m := b.Zext(64, c.v)
					want := DecV{Num: b.Ite(c.neg, b.Sub(b.I(0), m), m), Exp: -6}
					ex.assertEq("signed "+c.n, r[i], want)
				}
			})
		}})
	}
	return js
}

// ---- attribute word and header ------------------------------------------

func propJobs(w *World) []job {
	var js []job
	nt := w.namedIn("protocol", "Property")
	type pa struct {
		name string
		opt  bool
		run  func(ex *Ex, fn *ssa.Function, p PtrV, v *Term)
	}
	setBit := func(bit int) func(ex *Ex, fn *ssa.Function, p PtrV, v *Term) {
		return func(ex *Ex, fn *ssa.Function, p PtrV, v *Term) {
			ex.callFn(fn, []Value{p}, nil, "root")
			ex.ok("no-panic")
			ex.assertEq("sets only its bit", ex.load(p), withBit(ex, v, bit, ex.b.T))
		}
	}
	getBit := func(bit int) func(ex *Ex, fn *ssa.Function, p PtrV, v *Term) {
		return func(ex *Ex, fn *ssa.Function, p PtrV, v *Term) {
			r := ex.callFn(fn, []Value{p}, nil, "root")
			ex.ok("no-panic")
			ex.assertEq("reads its bit", r, bitAt(ex, v, bit))
			ex.assertEq("unchanged", ex.load(p), v)
		}
	}
	for _, a := range []pa{
		{"enablePacket", true, setBit(13)},
		{"enableEncrypt", true, setBit(10)},
		{"IsEnablePacket", false, getBit(13)},
		{"IsEnableEncrypt", false, getBit(10)},
		{"GetBodySize", false, func(ex *Ex, fn *ssa.Function, p PtrV, v *Term) {
			r := ex.callFn(fn, []Value{p}, nil, "root")
			ex.ok("no-panic")
			ex.assertEq("low ten bits", r, ex.b.BAnd(v, ex.b.C(16, 0x3ff)))
			ex.assertEq("unchanged", ex.load(p), v)
		}},
		{"SetBodySize", false, func(ex *Ex, fn *ssa.Function, p PtrV, v *Term) {
			b := ex.b
			n := b.Var("size", BV(16))
			ex.addInput("size", n)
			r := ex.callFn(fn, []Value{p, n}, nil, "root")
			ex.ok("no-panic")
			fits := b.ULe(n, b.C(16, 1023))
			ex.assert("refused iff longer than 1023", b.Eq(isErr(ex, r), b.Not(fits)), nil)
			ex.assert("length in the low ten bits, others kept", b.Implies(fits,
				b.Eq(ex.load(p).(*Term), b.BOr(b.BAnd(v, b.C(16, 0xfc00)), n))), nil)
			ex.assert("unchanged when refused", b.Implies(b.Not(fits), b.Eq(ex.load(p).(*Term), v)), nil)
		}},
	} {
		a := a
		fn := w.method(nt, a.name)
		if fn == nil && a.opt {
			continue
		}
		js = append(js, job{"prop:" + a.name, func(w *World, e *Engine) {
			if !w.need(e, fn, "Property."+a.name) {
				return
			}
			e.Explore(func(ex *Ex) {
				v := ex.b.Var("attribute", BV(16))
				ex.addInput("attribute", v)
				o := ex.newObj("property", v, nt)
				a.run(ex, fn, ex.ptrTo(o), v)
			})
		}})
	}
	return js
}

// hdr: a header with the given parts.
func mkHeader(ex *Ex, w *World, id, prop, icc, serial *Term, packet Value) StructV {
	nt := w.namedIn("protocol", "Header")
	sv := StructV{F: append([]Value{}, ex.zero(nt).(StructV).F...)}
	sv.F[fieldIndex(nt, "MsgID")] = id
	sv.F[fieldIndex(nt, "Property")] = prop
	sv.F[fieldIndex(nt, "IccID")] = icc
	sv.F[fieldIndex(nt, "MsgSerialNo")] = serial
	sv.F[fieldIndex(nt, "Packet")] = packet
	return sv
}

const maxIcc = 1000000000000

func headerJobs(w *World) []job {
	ht := w.namedIn("protocol", "Header")
	pt := w.namedIn("protocol", "Packet")
	vars := func(ex *Ex) (id, prop, icc, ser, sum, seq *Term) {
		b := ex.b
		id, prop, ser = b.Var("MsgID", BV(16)), b.Var("Property", BV(16)), b.Var("MsgSerialNo", BV(16))
		icc = b.Var("IccID", BV(64))
		sum, seq = b.Var("Packet.Sum", BV(16)), b.Var("Packet.Seq", BV(16))
		for _, t := range []*Term{id, prop, ser, icc, sum, seq} {
			ex.addInput(t.Name, t)
		}
		ex.assume(b.ULt(icc, b.C(64, maxIcc)))
		ex.assume(b.App("fewdigits", BoolS, icc))
		return
	}
	packet := func(ex *Ex, sum, seq *Term) Value {
		sv := StructV{F: append([]Value{}, ex.zero(pt).(StructV).F...)}
		sv.F[fieldIndex(pt, "Sum")] = sum
		sv.F[fieldIndex(pt, "Seq")] = seq
		return ex.ptrTo(ex.newObj("packet", sv, pt))
	}
	enc := w.method(ht, "Encode")
	dec := w.method(ht, "Decode")
	js := []job{
		{"hdr:Encode", func(w *World, e *Engine) {
			if !w.need(e, enc, "Header.Encode") {
				return
			}
			e.Explore(func(ex *Ex) {
				b := ex.b
				id, prop, icc, ser, sum, seq := vars(ex)
				withP := ex.choose(b.Var("hasPacket", BoolS))
				var pk Value = ex.nilPtr()
				if withP {
					pk = packet(ex, sum, seq)
				}
				o := ex.newObj("header", mkHeader(ex, w, id, prop, icc, ser, pk), ht)
				r := ex.callFn(enc, []Value{ex.ptrTo(o)}, nil, "root").(TupleV)
				ex.ok("no-panic")
				if !withP && ex.choose(bitAt(ex, prop, 13)) {
					ex.assert("sub-packet bit without sub-packet data is refused", isErr(ex, r[1]), nil)
					return
				}
				if !ex.assert("encodes", b.Not(isErr(ex, r[1])), nil) {
					return
				}
				wprop := prop
				if withP {
					wprop = withBit(ex, prop, 13, b.T)
				}
				want := ex.cat(ex.beBytes(id), ex.beBytes(wprop))
				want = ex.cat(want, bcdPack(ex, ex.digits(icc, 12), 6))
				want = ex.cat(want, ex.beBytes(ser))
				if withP {
					want = ex.cat(want, ex.cat(ex.beBytes(sum), ex.beBytes(seq)))
				}
				ex.assertEq("layout", StrV{ex.content(asSlice(ex, r[0]))}, StrV{want})
				got := o.Val.(StructV)
				ex.assertEq("header MsgID kept", got.F[fieldIndex(ht, "MsgID")], id)
				ex.assertEq("header Property kept", got.F[fieldIndex(ht, "Property")], wprop)
				ex.assertEq("header IccID kept", got.F[fieldIndex(ht, "IccID")], icc)
				ex.assertEq("header MsgSerialNo kept", got.F[fieldIndex(ht, "MsgSerialNo")], ser)
			})
		}},
		{"hdr:Decode", func(w *World, e *Engine) {
			if !w.need(e, dec, "Header.Decode") {
				return
			}
			e.Explore(func(ex *Ex) {
				b := ex.b
				D := b.Var("D", US("Str"))
				ex.addInput("D", D)
				n := ex.slen(D)
				ex.addInput("len(D)", n)
				at := func(i int) *Term { return b.App("at", BV(8), D, b.I(int64(i))) }
				for i := 0; i < 16; i++ {
					ex.addInput(fmt.Sprintf("D[%d]", i), at(i))
				}
				S := ex.strSeq(D)
				long := ex.choose(b.SLe(b.I(12), n))
				digits := true
				var icc *Term
				pktbit := false
				if long {
					var ds []Value
					for i := 4; i < 10 && digits; i++ {
						for _, d := range []*Term{b.LShr(at(i), b.C(8, 4)), b.BAnd(at(i), b.C(8, 15))} {
							if !ex.choose(b.ULe(d, b.C(8, 9))) {
								digits = false
								break
							}
							ds = append(ds, b.Add(d, b.C(8, '0')))
						}
					}
					if digits {
						icc = ex.parseDigits(ds)
						pktbit = ex.choose(bitAt(ex, b.App("at", BV(8), D, b.I(2)), 5))
					}
				}
				good := long && digits && (!pktbit || ex.choose(b.SLe(b.I(16), n)))
				h := ex.newObj("header", ex.zero(ht), ht)
				data := ex.freshSlice(S, "data")
				r := ex.callFn(dec, []Value{ex.ptrTo(h), data}, nil, "root")
				ex.ok("no-panic")
				if !good {
					ex.assert("incomplete or non-digit header rejected", isErr(ex, r), nil)
					return
				}
				if !ex.assert("accepts", b.Not(isErr(ex, r)), nil) {
					return
				}
				got := ex.load(ex.ptrTo(h)).(StructV)
				be := func(i int) *Term { return b.Concat(at(i), at(i+1)) }
				ex.assertEq("MsgID", got.F[fieldIndex(ht, "MsgID")], be(0))
				ex.assertEq("Property", got.F[fieldIndex(ht, "Property")], be(2))
				ex.assertEq("IccID", got.F[fieldIndex(ht, "IccID")], icc)
				ex.assertEq("MsgSerialNo", got.F[fieldIndex(ht, "MsgSerialNo")], be(10))
				pk := got.F[fieldIndex(ht, "Packet")].(PtrV)
				if !pktbit {
					ex.assert("no sub-packet data", pk.Nil, nil)
					return
				}
				if ex.assert("sub-packet data present", b.Not(pk.Nil), nil) {
					pv := ex.load(pk).(StructV)
					ex.assertEq("Packet.Sum", pv.F[fieldIndex(pt, "Sum")], be(12))
					ex.assertEq("Packet.Seq", pv.F[fieldIndex(pt, "Seq")], be(14))
				}
			})
		}},
		{"hdr:digits", func(w *World, e *Engine) {
			// lemma: the twelve digits of a number below 10^12 name that number
			e.Explore(func(ex *Ex) {
				b := ex.b
				// every number below 10^12 is a sum of digit*10^i (division with remainder)
				icc, scale := b.C(64, 0), uint64(1)
				for i := 0; i < 12; i++ {
					d := b.Zext(64, b.Var(fmt.Sprintf("d%d", i), BV(4)))
					ex.assume(b.ULe(d, b.C(64, 9)))
					icc = b.Add(icc, b.Mul(d, b.C(64, scale)))
					scale *= 10
				}
				ex.assertEq("twelve digits name the number", ex.parseDigits(ex.digits(icc, 12)), icc)
			})
		}},
	}
	return js
}

// ---- BCD and time --------------------------------------------------------

func bcdJobs(w *World) []job {
	var js []job
	pk := w.Pkgs["protocol"]
	wt, rt := w.namedIn("protocol", "Writer"), w.namedIn("protocol", "Reader")
	js = append(js, job{"bcd:Writer.WriteBcdTime", func(w *World, e *Engine) {
		fn := w.method(wt, "WriteBcdTime")
		if !w.need(e, fn, "Writer.WriteBcdTime") {
			return
		}
		e.Explore(func(ex *Ex) {
			b := ex.b
			old := b.Var("before", US("Str"))
			sec := b.Var("sec", BV(64))
			ex.assume(ex.repTime(sec))
			wr := ex.callFn(pk.Func("NewWriter"), nil, nil, "root")
			o := ex.newObj("writer", wr, wt)
			ex.callFn(w.method(wt, "Write"), []Value{ex.ptrTo(o), ex.freshSlice(ex.strSeq(old), "old"), ex.nilSlice()}, nil, "root")
			ex.callFn(fn, []Value{ex.ptrTo(o), TimeV{Sec: sec}}, nil, "root")
			r := ex.callFn(w.method(wt, "Bytes"), []Value{ex.ptrTo(o)}, nil, "root")
			ex.ok("no-panic")
			var ds []Value
			for i := 2; i < 14; i++ {
				ds = append(ds, ex.timeDigit(sec, i))
			}
			ex.assertEq("twelve digits YYMMDDhhmmss appended", StrV{ex.content(asSlice(ex, r))}, StrV{ex.cat(ex.strSeq(old), bcdPack(ex, ds, 6))})
		})
	}})
	readTime := func(e *Engine, fn *ssa.Function, viaReader bool) {
		e.Explore(func(ex *Ex) {
			b := ex.b
			D := b.Var("D", US("Str"))
			ex.addInput("D", D)
			n := ex.slen(D)
			ex.addInput("len(D)", n)
			at := func(i int) *Term { return b.App("at", BV(8), D, b.I(int64(i))) }
			for i := 0; i < 6; i++ {
				ex.addInput(fmt.Sprintf("D[%d]", i), at(i))
			}
			enough := ex.choose(b.SLe(b.I(6), n))
			if !viaReader && enough && !ex.choose(b.Eq(n, b.I(6))) {
				return
			}
			var ok *Term = b.F
			var sec *Term
			if enough {
				d := [14]*Term{b.C(8, '2'), b.C(8, '0')}
				for i := 0; i < 6; i++ {
					d[2+2*i] = b.Add(b.LShr(at(i), b.C(8, 4)), b.C(8, '0'))
					d[3+2*i] = b.Add(b.BAnd(at(i), b.C(8, 15)), b.C(8, '0'))
				}
				ok, sec = ex.timeOf(d)
				for i := range d {
					ok = b.And(ok, ex.isDigit(d[i]))
				}
			}
			good := ex.choose(ok)
			data := ex.freshSlice(ex.strSeq(D), "data")
			if !viaReader && enough {
				var vs []Value
				for i := 0; i < 6; i++ {
					vs = append(vs, at(i))
				}
				data = ex.sliceOf(elems(vs...), "data", types.Typ[types.Uint8])
			}
			var r TupleV
			if viaReader {
				o := ex.newObj("reader", ex.callFn(pk.Func("NewReader"), []Value{data}, nil, "root"), rt)
				r = ex.callFn(fn, []Value{ex.ptrTo(o)}, nil, "root").(TupleV)
				if good {
					l := ex.callFn(w.method(rt, "Len"), []Value{ex.ptrTo(o)}, nil, "root")
					ex.assertEq("six bytes consumed", l, b.Sub(n, b.I(6)))
				}
			} else {
				r = ex.callFn(fn, []Value{data}, nil, "root").(TupleV)
			}
			ex.ok("no-panic")
			if !good {
				ex.assert("not a valid time: rejected", isErr(ex, r[1]), nil)
				return
			}
			if ex.assert("valid time accepted", b.Not(isErr(ex, r[1])), nil) {
				ex.assertEq("instant", r[0], TimeV{Sec: sec})
			}
		})
	}
	js = append(js, job{"bcd:Reader.ReadBcdTime", func(w *World, e *Engine) {
		fn := w.method(rt, "ReadBcdTime")
		if w.need(e, fn, "Reader.ReadBcdTime") {
			readTime(e, fn, true)
		}
	}})
	if fn := w.helper("fromBCDTime"); fn != nil && fn.Signature.Params().Len() == 1 {
		js = append(js, job{"bcd:fromBCDTime", func(w *World, e *Engine) { readTime(e, fn, false) }})
	}
	js = append(js, job{"bcd:time round trip", func(w *World, e *Engine) {
		e.Explore(func(ex *Ex) {
			b := ex.b
			sec := b.Var("sec", BV(64))
			ex.assume(ex.repTime(sec))
			o := ex.newObj("writer", ex.callFn(pk.Func("NewWriter"), nil, nil, "root"), wt)
			ex.callFn(w.method(wt, "WriteBcdTime"), []Value{ex.ptrTo(o), TimeV{Sec: sec}}, nil, "root")
			d := ex.callFn(w.method(wt, "Bytes"), []Value{ex.ptrTo(o)}, nil, "root")
			rd := ex.newObj("reader", ex.callFn(pk.Func("NewReader"), []Value{d}, nil, "root"), rt)
			r := ex.callFn(w.method(rt, "ReadBcdTime"), []Value{ex.ptrTo(rd)}, nil, "root").(TupleV)
			ex.ok("no-panic")
			if ex.assert("read back", b.Not(isErr(ex, r[1])), nil) {
				ex.assertEq("same instant", r[0], TimeV{Sec: sec})
			}
		})
	}})
	if fn := w.helper("stringToBCD"); fn != nil && fn.Signature.Variadic() && fn.Signature.Params().Len() == 2 {
		for _, size := range []int{4, 5, 6, 10} {
			size := size
			for n := 0; n <= 2*size; n++ {
				n := n
				js = append(js, job{fmt.Sprintf("bcd:stringToBCD/%d/%d", size, n), func(w *World, e *Engine) {
					e.Explore(func(ex *Ex) {
						b := ex.b
						var ds, pad []Value
						for i := 0; i < n; i++ {
							c := b.Var(fmt.Sprintf("s[%d]", i), BV(8))
							ex.addInput(c.Name, c)
							ex.assume(ex.isDigit(c))
							ds = append(ds, c)
						}
						for i := n; i < 2*size; i++ {
							pad = append(pad, b.C(8, '0'))
						}
						sz := ex.sliceOf(elems(b.I(int64(size))), "size", types.Typ[types.Int])
						r := ex.callFn(fn, []Value{StrV{elems(ds...)}, sz}, nil, "root")
						ex.ok("no-panic")
						ex.assertEq("right-aligned digits, zeros on the left", StrV{ex.content(asSlice(ex, r))}, StrV{bcdPack(ex, append(pad, ds...), size)})
					})
				}})
			}
		}
	}
	return js
}

// ---- parameters ----------------------------------------------------------

func paramJobs(w *World) []job {
	pt := w.namedIn("protocol", "Param")
	m := func(n string) *ssa.Function { return w.method(pt, n) }
	call := func(ex *Ex, n string, p PtrV, args ...Value) Value {
		fn := m(n)
		if fn == nil {
			ex.failNow("exists", "Param."+n+" is not in the tree")
		}
		return ex.callFn(fn, append([]Value{p}, args...), nil, "root")
	}
	mk := func(ex *Ex) (PtrV, func()) {
		// an arbitrary earlier state: id and bytes stored before
		o := ex.newObj("param", ex.zero(pt), pt)
		p := ex.ptrTo(o)
		fi, nb := -1, 0
		for i := range o.Val.(StructV).F {
			if fieldType(pt, i).String() == "[]byte" {
				fi, nb = i, nb+1
			}
		}
		if nb == 1 && ex.choose(ex.b.Var("decoded before", BoolS)) {
			// decoded: the bytes lie in the message it came in, next to others
			b := ex.b
			all := ex.strSeq(b.Var("message", US("Str")))
			sl := ex.freshSlice(all, "messagebytes")
			from, n := b.Var("from", BV(64)), b.Var("n", BV(64))
			ex.assume(b.And(b.SLe(b.I(0), from), b.SLe(b.I(0), n), b.SLe(from, sl.Len), b.SLe(n, sl.Len), b.SLe(b.Add(from, n), sl.Len)))
			fs := append([]Value{}, o.Val.(StructV).F...)
			fs[fi] = SliceV{Arr: sl.Arr, Off: from, Len: n, Cap: b.Sub(sl.Len, from), Nil: b.F}
			o.Val = StructV{F: fs}
			return p, func() {
				ex.assertEq("setting a decoded parameter leaves the message it came in alone", StrV{ex.content(sl)}, StrV{all})
			}
		}
		if ex.choose(ex.b.Var("used before", BoolS)) {
			old := ex.b.Var("old", US("Str"))
			call(ex, "SetBytes", p, ex.b.Var("oldid", BV(32)), ex.freshSlice(ex.strSeq(old), "oldbytes"))
		}
		return p, func() {}
	}
	overwrite := func(ex *Ex, s SliceV, name string) {
		if s.Arr.O != nil {
			junk := ex.b.Var(name, US("Str"))
			ex.assume(ex.b.Eq(ex.slen(junk), s.Len))
			ex.sliceStore(s, ex.b.I(0), ex.strSeq(junk))
		}
	}
	okTuple := func(ex *Ex, label string, r Value, want Value) {
		t := r.(TupleV)
		if ex.assert(label+" readable", ex.b.Not(isErr(ex, t[1])), nil) {
			got := t[0]
			if s, ok := got.(SliceV); ok {
				got = StrV{ex.content(s)}
			}
			ex.assertEq(label, got, want)
		}
	}
	var js []job
	add := func(n string, f func(ex *Ex, p PtrV)) {
		js = append(js, job{"param:" + n, func(w *World, e *Engine) {
			e.Explore(func(ex *Ex) {
				id := ex.b.Var("id", BV(32))
				ex.addInput("id", id)
				p, done := mk(ex)
				f(ex, p)
				done()
			})
		}})
	}
	id := func(ex *Ex) *Term { return ex.b.Var("id", BV(32)) }
	idOK := func(ex *Ex, p PtrV, r Value) {
		ex.assertEq("id", call(ex, "ID", p), id(ex))
		if q, ok := r.(PtrV); ok {
			ex.assert("returns the parameter itself", ex.b.Bool(q.O == p.O), nil)
		}
	}
	add("SetByte", func(ex *Ex, p PtrV) {
		v := ex.b.Var("v", BV(8))
		ex.addInput("v", v)
		r := call(ex, "SetByte", p, id(ex), v)
		idOK(ex, p, r)
		okTuple(ex, "byte", call(ex, "GetByte", p), v)
		okTuple(ex, "bytes", call(ex, "GetBytes", p), StrV{elems(v)})
		ex.ok("no-panic")
	})
	for _, k := range []struct {
		n string
		w int
	}{{"Uint16", 16}, {"Uint32", 32}} {
		k := k
		add("Set"+k.n, func(ex *Ex, p PtrV) {
			v := ex.b.Var("v", BV(k.w))
			ex.addInput("v", v)
			r := call(ex, "Set"+k.n, p, id(ex), v)
			idOK(ex, p, r)
			okTuple(ex, "value", call(ex, "Get"+k.n, p), v)
			okTuple(ex, "bytes", call(ex, "GetBytes", p), StrV{ex.beBytes(v)})
			ex.ok("no-panic")
		})
	}
	add("SetBytes", func(ex *Ex, p PtrV) {
		D := ex.b.Var("D", US("Str"))
		S := ex.strSeq(D)
		in := ex.freshSlice(S, "caller")
		r := call(ex, "SetBytes", p, id(ex), in)
		idOK(ex, p, r)
		okTuple(ex, "bytes", call(ex, "GetBytes", p), StrV{S})
		overwrite(ex, in, "junk1")
		g := call(ex, "GetBytes", p)
		okTuple(ex, "bytes after the caller reused its buffer", g, StrV{S})
		overwrite(ex, g.(TupleV)[0].(SliceV), "junk2")
		okTuple(ex, "bytes after the reader changed its copy", call(ex, "GetBytes", p), StrV{S})
		ex.ok("no-panic")
	})
	add("SetString", func(ex *Ex, p PtrV) {
		s := ex.b.Var("s", US("Str"))
		ex.addInput("len(s)", ex.slen(s))
		ex.assume(ex.gbOK(s))
		r := call(ex, "SetString", p, id(ex), StrV{ex.strSeq(s)})
		idOK(ex, p, r)
		okTuple(ex, "text", call(ex, "GetString", p), StrV{ex.strSeq(s)})
		ex.ok("no-panic")
	})
	add("Get", func(ex *Ex, p PtrV) {
		D := ex.b.Var("D", US("Str"))
		n := ex.slen(D)
		ex.addInput("len(D)", n)
		call(ex, "SetBytes", p, id(ex), ex.freshSlice(ex.strSeq(D), "caller"))
		for i, g := range []string{"GetByte", "GetUint16", "GetUint32"} {
			k := int64(1) << uint(i)
			r := call(ex, g, p).(TupleV)
			short := ex.b.SLt(n, ex.b.I(k))
			ex.assert(g+" of too few bytes is an error", ex.b.Implies(short, isErr(ex, r[1])), nil)
			exact := ex.b.Eq(n, ex.b.I(k))
			ex.assert(g+" of exactly its width", ex.b.Implies(exact, ex.b.And(ex.b.Not(isErr(ex, r[1])),
				ex.b.Eq(r[0].(*Term), ex.bigEndian(ex.win(StrBase{D}, ex.b.I(0), ex.b.I(k)), int(k))))), nil)
		}
		call(ex, "GetString", p)
		idOK(ex, p, nil)
		okTuple(ex, "bytes", call(ex, "GetBytes", p), StrV{ex.strSeq(D)})
		ex.ok("no-panic")
	})
	return js
}

// ---- location extras -----------------------------------------------------

type extraType struct {
	name string
	id   byte
	kind string // "u8","u16","u32","11","12","13"
}

var extraTypes = []extraType{
	{"Extra_0x01", 0x01, "u32"}, {"Extra_0x02", 0x02, "u16"}, {"Extra_0x03", 0x03, "u16"}, {"Extra_0x04", 0x04, "u16"},
	{"Extra_0x11", 0x11, "11"}, {"Extra_0x12", 0x12, "12"}, {"Extra_0x13", 0x13, "13"},
	{"Extra_0x25", 0x25, "u32"}, {"Extra_0x2A", 0x2a, "u16"}, {"Extra_0x2B", 0x2b, "u32"},
	{"Extra_0x30", 0x30, "u8"}, {"Extra_0x31", 0x31, "u8"},
}

func extraJobs(w *World) []job {
	var js []job
	pk := w.Pkgs["extra"]
	u32 := types.Typ[types.Uint32]
	// value of the fields as the item type's value
	mkVal := func(ex *Ex, t extraType, vt types.Type, at func(i int) *Term) (Value, int) {
		b := ex.b
		be := func(i, n int) *Term {
			r := at(i)
			for k := 1; k < n; k++ {
				r = b.Concat(r, at(i+k))
			}
			return r
		}
		set := func(fs map[string]Value) Value {
			sv := StructV{F: append([]Value{}, ex.zero(vt).(StructV).F...)}
			for k, v := range fs {
				sv.F[fieldIndex(vt, k)] = v
			}
			return sv
		}
		switch t.kind {
		case "u8":
			return at(0), 1
		case "u16":
			return be(0, 2), 2
		case "u32":
			return be(0, 4), 4
		case "12":
			return set(map[string]Value{"Type": at(0), "AreaID": be(1, 4), "Direction": at(5)}), 6
		case "13":
			return set(map[string]Value{"RoadID": be(0, 4), "Duration": be(4, 2), "Result": at(6)}), 7
		}
		if ex.choose(b.Eq(at(0), b.C(8, 0))) {
			return set(map[string]Value{"Type": at(0), "AreaID": ex.nilPtr()}), 1
		}
		return set(map[string]Value{"Type": at(0), "AreaID": ex.ptrTo(ex.newObj("areaid", be(1, 4), u32))}), 5
	}
	unwrap := func(v Value) Value {
		if i, ok := v.(IfaceV); ok && i.V != nil {
			return i.V
		}
		return v
	}
	methods := func(ex *Ex, nt *types.Named, p Value, t extraType, val Value, raw *Seq) {
		ex.assertEq("id", ex.callFn(w.method(nt, "ID"), []Value{p}, nil, "root"), ex.b.C(8, uint64(t.id)))
		ex.assertEq("value", unwrap(ex.callFn(w.method(nt, "Value"), []Value{p}, nil, "root")), val)
		ex.assertEq("data", StrV{ex.content(asSlice(ex, ex.callFn(w.method(nt, "Data"), []Value{p}, nil, "root")))}, StrV{raw})
	}
	valueType := func(nt *types.Named, t extraType) types.Type {
		c := pk.Func("New" + t.name)
		if c == nil || c.Signature.Params().Len() != 1 {
			return nil
		}
		return c.Signature.Params().At(0).Type()
	}
	for _, t := range extraTypes {
		t := t
		js = append(js, job{"extra:" + t.name + ".New", func(w *World, e *Engine) {
			nt := w.namedIn("extra", t.name)
			c := pk.Func("New" + t.name)
			if !w.need(e, c, "New"+t.name) {
				return
			}
			e.Explore(func(ex *Ex) {
				b := ex.b
				B := make([]*Term, 8)
				for i := range B {
					B[i] = b.Var(fmt.Sprintf("b%d", i), BV(8))
					ex.addInput(fmt.Sprintf("b%d", i), B[i])
				}
				v, n := mkVal(ex, t, valueType(nt, t), func(i int) *Term { return B[i] })
				var raw []Value
				for i := 0; i < n; i++ {
					raw = append(raw, B[i])
				}
				p := ex.callFn(c, []Value{v}, nil, "root")
				methods(ex, nt, p, t, v, elems(raw...))
				ex.ok("no-panic")
			})
		}})
		dec := func(e *Engine, call func(ex *Ex, nt *types.Named, data SliceV) (Value, *Term, IfaceV)) {
			nt := w.namedIn("extra", t.name)
			e.Explore(func(ex *Ex) {
				b := ex.b
				D := b.Var("D", US("Str"))
				n := ex.slen(D)
				ex.addInput("len(D)", n)
				for i := 0; i < 8; i++ {
					ex.addInput(fmt.Sprintf("D[%d]", i), b.App("at", BV(8), D, b.I(int64(i))))
				}
				var v Value
				size := 0
				good := ex.choose(b.SLe(b.I(1), n))
				if good {
					v, size = mkVal(ex, t, valueType(nt, t), func(i int) *Term { return b.App("at", BV(8), D, b.I(int64(i))) })
					good = ex.choose(b.SLe(b.I(int64(size)), n))
				}
				data := ex.freshSlice(ex.strSeq(D), "data")
				p, cnt, err := call(ex, nt, data)
				ex.ok("no-panic")
				if !good {
					ex.assert("too short: rejected", b.Not(err.Nil), nil)
					return
				}
				if !ex.assert("accepts", err.Nil, nil) {
					return
				}
				ex.assertEq("count", cnt, b.I(int64(size)))
				raw := ex.win(StrBase{D}, b.I(0), b.I(int64(size)))
				methods(ex, nt, p, t, v, raw)
				junk := b.Var("junk", US("Str"))
				ex.assume(b.Eq(ex.slen(junk), n))
				ex.sliceStore(data, b.I(0), ex.strSeq(junk))
				ex.assertEq("independent of the buffer", StrV{ex.content(asSlice(ex, ex.callFn(w.method(nt, "Data"), []Value{p}, nil, "root")))}, StrV{raw})
			})
		}
		js = append(js, job{"extra:" + t.name + ".Decode", func(w *World, e *Engine) {
			dec(e, func(ex *Ex, nt *types.Named, data SliceV) (Value, *Term, IfaceV) {
				p := ex.ptrTo(ex.newObj("extra", ex.zero(nt), nt))
				r := ex.callFn(w.method(nt, "Decode"), []Value{p, data}, nil, "root").(TupleV)
				return p, r[0].(*Term), r[1].(IfaceV)
			})
		}})
		js = append(js, job{"extra:" + t.name + " registered", func(w *World, e *Engine) {
			fn := pk.Func("Decode")
			if !w.need(e, fn, "extra.Decode") {
				return
			}
			dec(e, func(ex *Ex, nt *types.Named, data SliceV) (Value, *Term, IfaceV) {
				r := ex.callFn(fn, []Value{ex.b.C(8, uint64(t.id)), data}, nil, "root").(TupleV)
				err := r[2].(IfaceV)
				var p Value
				if iv, ok := r[0].(IfaceV); ok && iv.V != nil {
					p = iv.V
					ex.assert("own type", ex.b.Bool(types.Identical(iv.T, types.NewPointer(nt))), nil)
				}
				return p, r[1].(*Term), err
			})
		}})
	}
	js = append(js, job{"extra:unknown ids", func(w *World, e *Engine) {
		fn := pk.Func("Decode")
		if !w.need(e, fn, "extra.Decode") {
			return
		}
		e.Explore(func(ex *Ex) {
			b := ex.b
			id := b.Var("id", BV(8))
			ex.addInput("id", id)
			for _, t := range extraTypes {
				ex.assume(b.Ne(id, b.C(8, uint64(t.id))))
			}
			D := b.Var("D", US("Str"))
			r := ex.callFn(fn, []Value{id, ex.freshSlice(ex.strSeq(D), "data")}, nil, "root").(TupleV)
			ex.ok("no-panic")
			g := ex.load(ex.global(w.Pkgs["errors"].Var("ErrTypeNotRegistered")).(PtrV)).(IfaceV)
			err := r[2].(IfaceV)
			ex.assert("not registered", b.And(b.Not(err.Nil), b.Eq(err.Id, g.Id)), nil)
		})
	}})
	reg := pk.Func("Register")
	if reg == nil || reg.Signature.Params().Len() != 2 || reg.Signature.Results().Len() != 0 {
		return js
	}
	// a type of the caller's: any id, its value comes from its own Decode
	js = append(js, job{"extra:Register", func(w *World, e *Engine) {
		fn := pk.Func("Decode")
		if !w.need(e, fn, "extra.Decode") {
			return
		}
		e.Explore(func(ex *Ex) {
			b := ex.b
			id := b.Var("id", BV(8))
			ex.addInput("id", id)
			D := b.Var("D", US("Str"))
			data := ex.freshSlice(ex.strSeq(D), "data")
			made := 0
			mk := FuncV{Nil: b.F, Mod: func(ex *Ex, a []Value) Value {
				made++
				return IfaceV{Nil: b.F, Id: b.C(32, uint64(1000+made))}
			}}
			ex.callFn(reg, []Value{id, mk}, nil, "root")
			var got IfaceV
			fails, n := b.Var("fails", BoolS), b.Var("n", BV(64))
			own := ex.errConst("ownerr")
			ex.hooks["iface:Decode"] = func(ex *Ex, a []Value) (Value, bool) {
				got, _ = a[0].(IfaceV)
				if len(a) != 2 || got.V != nil {
					return nil, false
				}
				ex.assertEq("the type's decoder gets the item's data", StrV{ex.content(asSlice(ex, a[1]))}, StrV{ex.strSeq(D)})
				if ex.choose(fails) {
					return TupleV{b.I(0), own}, true
				}
				return TupleV{n, ex.nilErr()}, true
			}
			if ex.choose(b.Var("another id", BoolS)) {
				t := extraTypes[ex.chooseN(len(extraTypes))]
				ex.assume(b.Ne(id, b.C(8, uint64(t.id))))
				r := ex.callFn(fn, []Value{b.C(8, uint64(t.id)), data}, nil, "root").(TupleV)
				ex.ok("no-panic")
				if ex.choose(b.Not(isErr(ex, r[2]))) {
					iv, _ := r[0].(IfaceV)
					ex.assert("other ids keep their type", b.Bool(iv.T != nil && pointeeName(iv.T) == t.name), nil)
				}
				return
			}
			r := ex.callFn(fn, []Value{id, data}, nil, "root").(TupleV)
			ex.ok("no-panic")
			if !ex.assert("the registered type decodes it", b.Bool(made == 1 && got.Id != nil), nil) {
				return
			}
			ex.assert("fails as the type's decoder does", b.Eq(isErr(ex, r[2]), fails), nil)
			if !ex.choose(fails) {
				iv, _ := r[0].(IfaceV)
				ex.assert("a value of the registered type", b.Bool(iv.V == nil && iv.Id != nil && iv.Id == got.Id), nil)
				ex.assertEq("its count", r[1], n)
			}
		})
	}})
	return js
}

func leafJobs(w *World) []job {
	var js []job
	js = append(js, flagJobs(w)...)
	js = append(js, propJobs(w)...)
	js = append(js, headerJobs(w)...)
	js = append(js, bcdJobs(w)...)
	js = append(js, paramJobs(w)...)
	js = append(js, extraJobs(w)...)
	return js
}
