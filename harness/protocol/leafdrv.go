package HARNESS

import (
	"bytes"
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"fmt"
	"reflect"
	"sync"
	"time"

	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"github.com/shopspring/decimal"
)

func init() {
	vdrivers = append(vdrivers,
		vdriver{name: "header", props: "C07", n: 20000, par: true, run: drvHeader},
		vdriver{name: "headerbytes", props: "C07", n: 20000, par: true, run: drvHeaderBytes},
		vdriver{name: "property", props: "C07", n: 20000, par: true, run: drvProperty},
		vdriver{name: "bodysize", props: "C07", n: 600, par: true, run: drvBodySize},
		vdriver{name: "extras", props: "C10", n: 12000, par: true, run: drvExtras},
		vdriver{name: "extraitem", props: "C10", n: 20000, par: true, run: drvExtraItem},
		vdriver{name: "georound", props: "C11", n: 12000, par: true, run: drvIn(drvWire, geoLays)},
		vdriver{name: "geodecode", props: "C11", n: 12000, par: true, run: drvIn(drvDecode, geoLays)},
		vdriver{name: "extralist", props: "C10", n: 8000, par: true, run: drvExtraList},
		vdriver{name: "flags", props: "C11", n: 30000, par: true, run: drvFlags},
		vdriver{name: "bcdtime", props: "C12", n: 40000, par: true, run: drvBcdTime},
		vdriver{name: "bcdfields", props: "C12", n: 12000, par: true, run: drvIn(drvRoundtrip, timeLays)},
		vdriver{name: "bcdwire", props: "C12", n: 8000, par: true, run: drvIn(drvWire, timeLays)},
		vdriver{name: "bcddecode", props: "C12", n: 8000, par: true, run: drvIn(drvDecode, timeLays)},
		vdriver{name: "params", props: "C13", n: 30000, par: true, run: drvParam},
		vdriver{name: "paramframe", props: "C13", n: 10000, par: true, run: drvParamFrame},
		vdriver{name: "paramwire", props: "C13", n: 8000, par: true, run: drvIn(drvRoundtrip, paramLays)},
		vdriver{name: "parambytes", props: "C13", n: 8000, par: true, run: drvIn(drvWire, paramLays)},
		vdriver{name: "paramdecode", props: "C13", n: 8000, par: true, run: drvIn(drvDecode, paramLays)},
		vdriver{name: "crypt", props: "C14", n: 500, par: true, run: drvCrypt},
		vdriver{name: "cryptkeys", props: "C14", n: 120, par: true, run: drvCryptSmall},
		vdriver{name: "cryptmsg", props: "C14", n: 200, par: true, run: drvCryptMessage},
	)
}

func laysWith(ops ...string) []*Layout {
	var out []*Layout
	for _, l := range vmsgs {
		var rec func(ns []*Node) bool
		rec = func(ns []*Node) bool {
			for _, n := range ns {
				for _, o := range ops {
					if n.Op == o || n.Elem == o {
						return true
					}
				}
				if rec(n.Sub) {
					return true
				}
				e := n.Elem
				if len(e) > 0 && e[0] == '*' {
					e = e[1:]
				}
				if x := vlay[e]; x != nil && rec(x.Nodes) {
					return true
				}
			}
			return false
		}
		if rec(l.Nodes) {
			out = append(out, l)
		}
	}
	return out
}

var geoLays = laysWith("geo")
var timeLays = laysWith("time", "date4", "dur5", "bcd")
var paramLays = laysWith("param", "Param", "*Param")

// drvIn restricts a driver to some layouts.
func drvIn(run func(c *vc), lays []*Layout) func(c *vc) {
	return func(c *vc) { c.only = lays; run(c) }
}

// ---- header --------------------------------------------------------------------

func (c *vc) icc() uint64 {
	switch c.Intn(6) {
	case 0:
		return uint64(c.Intn(12))
	case 1:
		return 999999999999 - uint64(c.Intn(3))
	case 2:
		v := uint64(1)
		for i := c.Intn(12); i > 0; i-- {
			v *= 10
		}
		return v - uint64(c.Intn(2))
	case 3:
		return c.uint(64) % 1000000000000
	}
	return c.Uint64() % 1000000000000
}
func (c *vc) header() protocol.Header {
	h := protocol.Header{MsgID: protocol.MsgID(c.uint(16)), Property: protocol.Property(c.uint(16) &^ (1 << 13)),
		IccID: c.icc(), MsgSerialNo: uint16(c.uint(16))}
	if c.flip(2) {
		h.Packet = &protocol.Packet{Sum: uint16(c.uint(16)), Seq: uint16(c.uint(16))}
		if c.flip(2) {
			h.Property |= 1 << 13
		}
	}
	return h
}
func hdrBytes(h protocol.Header) []byte {
	p := uint64(h.Property)
	if h.Packet != nil {
		p |= 1 << 13
	}
	b := append(be(2, uint64(h.MsgID)), be(2, p)...)
	b = append(b, bcdBytes(fmt.Sprint(h.IccID), 6)...)
	b = append(b, be(2, uint64(h.MsgSerialNo))...)
	if h.Packet != nil {
		b = append(b, be(2, uint64(h.Packet.Sum))...)
		b = append(b, be(2, uint64(h.Packet.Seq))...)
	}
	return b
}
func hdrStr(h protocol.Header) string {
	s := fmt.Sprintf("{id %04x prop %04x icc %d serial %d", uint16(h.MsgID), uint16(h.Property), h.IccID, h.MsgSerialNo)
	if h.Packet != nil {
		s += fmt.Sprintf(" packet %d/%d", h.Packet.Seq, h.Packet.Sum)
	}
	return s + "}"
}
func drvHeader(c *vc) {
	h := c.header()
	c.note("Header%s", hdrStr(h))
	c.key = hdrStr(h)
	want := hdrBytes(h)
	wh := h
	if h.Packet != nil {
		wh.Property |= 1 << 13
	}
	b, err := h.Encode()
	if err != nil {
		c.failf("Header.Encode fails: %v", err)
		return
	}
	if !bytes.Equal(b, want) {
		c.failf("Header.Encode\n got  %x\n want %x", b, want)
		return
	}
	var d protocol.Header
	if err := d.Decode(b); err != nil {
		c.failf("Header.Decode(%x) fails: %v", b, err)
		return
	}
	if hdrStr(d) != hdrStr(wh) {
		c.failf("header round trip\n got  %s\n want %s", hdrStr(d), hdrStr(wh))
	}
}

// parseHdr: what the bytes say; ok false when incomplete or with non-digit terminal number.
func parseHdr(b []byte) (h protocol.Header, n int, ok bool) {
	if len(b) < 12 {
		return h, 0, false
	}
	h.MsgID = protocol.MsgID(b[0])<<8 | protocol.MsgID(b[1])
	h.Property = protocol.Property(b[2])<<8 | protocol.Property(b[3])
	for _, x := range b[4:10] {
		if x>>4 > 9 || x&15 > 9 {
			return h, 0, false
		}
		h.IccID = h.IccID*100 + uint64(x>>4)*10 + uint64(x&15)
	}
	h.MsgSerialNo = uint16(b[10])<<8 | uint16(b[11])
	if h.Property>>13&1 == 0 {
		return h, 12, true
	}
	if len(b) < 16 {
		return h, 0, false
	}
	h.Packet = &protocol.Packet{Sum: uint16(b[12])<<8 | uint16(b[13]), Seq: uint16(b[14])<<8 | uint16(b[15])}
	return h, 16, true
}
func drvHeaderBytes(c *vc) {
	var b []byte
	if hs := c.h.hints.Bodies["hdr"]; len(hs) > 0 && c.flip(3) {
		b = c.damage([]byte(hs[0]))
	} else {
		b = hdrBytes(c.header())
		if c.flip(2) {
			b = c.damage(b)
		}
		if c.flip(2) {
			b = append(b, c.bytes(c.Intn(10))...)
		}
	}
	c.key = string(b)
	c.note("Header.Decode(%x)", b)
	want, _, ok := parseHdr(b)
	var d protocol.Header
	err := d.Decode(b)
	if ok != (err == nil) {
		c.failf("Header.Decode: ok=%v expected, error %v", ok, err)
		return
	}
	if ok && hdrStr(d) != hdrStr(want) {
		c.failf("Header.Decode\n got  %s\n want %s", hdrStr(d), hdrStr(want))
	}
}
func drvProperty(c *vc) {
	v := uint16(c.uint(16))
	p := protocol.Property(v)
	n := uint16(c.uint(16))
	if c.flip(2) {
		n = uint16(c.Intn(1100))
	}
	c.key = fmt.Sprint(v, n)
	c.note("Property(%04x) SetBodySize(%d)", v, n)
	if p.IsEnablePacket() != (v>>13&1 == 1) || p.IsEnableEncrypt() != (v>>10&1 == 1) || p.GetBodySize() != v&0x3ff {
		c.failf("accessors of %04x: packet %v encrypt %v size %d", v, p.IsEnablePacket(), p.IsEnableEncrypt(), p.GetBodySize())
	}
	err := p.SetBodySize(n)
	want := v
	if n <= 1023 {
		want = v&0xfc00 | n
	}
	if (err != nil) != (n > 1023) || uint16(p) != want {
		c.failf("SetBodySize(%d) on %04x gives %04x, %v", n, v, uint16(p), err)
	}
}

// bodies around the 1023 byte limit, by Message.Encode
func drvBodySize(c *vc) {
	n := 1015 + c.Intn(20)
	if c.flip(3) {
		n = []int{0, 1, 1023, 1024, 2047, 65535, 65536, 65537, 66559, 66560}[c.Intn(10)]
	}
	m := protocol.Message{Header: c.header(), Body: &rawEntity{id: rawIDs[0], data: c.bytes(n)}}
	m.Header.Property &^= 1 << 10
	bits := uint16(m.Header.Property) & 0xfc00
	if m.Header.Packet != nil {
		bits |= 1 << 13
	}
	c.key = fmt.Sprint(n, bits, m.Header.Packet != nil)
	c.note("Message.Encode with a body of %d bytes, header %s", n, hdrStr(m.Header))
	f, err := m.Encode()
	if n > 1023 {
		if err == nil {
			c.failf("a body of %d bytes is accepted", n)
		}
		return
	}
	if err != nil {
		c.failf("a body of %d bytes is refused: %v", n, err)
		return
	}
	raw, ok := unframe(f)
	if !ok {
		c.failf("not a frame: %x", f)
		return
	}
	if got := uint16(raw[2])<<8 | uint16(raw[3]); got != bits|uint16(n) {
		c.failf("attribute word %04x, want %04x", got, bits|uint16(n))
	}
}

// ---- extras --------------------------------------------------------------------

func drvExtraItem(c *vc) {
	id := byte(c.uint(8))
	if !c.flip(5) || id == xbigID {
		id = extraIDs[c.Intn(len(extraIDs))]
	}
	var d []byte
	if extraKnown(id) && !c.flip(3) {
		d = c.extraData(id)
		if c.flip(2) {
			d = append(d, c.bytes(c.Intn(4))...)
		}
	} else {
		d = c.bytes(c.size(10))
	}
	c.key = fmt.Sprintf("%02x%x", id, d)
	c.note("extra.Decode(0x%02x, %x)", id, d)
	in := append([]byte{}, d...)
	e, n, err := extra.Decode(id, in)
	if !extraKnown(id) {
		if err == nil {
			c.failf("unknown item 0x%02x accepted", id)
		}
		return
	}
	w := extraWidth[id]
	if id == 0x11 {
		w = 5
		if len(d) > 0 && d[0] == 0 {
			w = 1
		}
	}
	if len(d) < w {
		if err == nil {
			c.failf("item 0x%02x with %d bytes accepted", id, len(d))
		}
		return
	}
	if err != nil {
		c.failf("item 0x%02x refused: %v", id, err)
		return
	}
	v, _ := extraValue(id, d[:w])
	want := extraKey(id, d[:w], v)
	for i := range in {
		in[i] ^= 0xff
	}
	if got := extraKey(e.ID(), e.Data(), e.Value()); got != want || n != w {
		c.failf("item decoded as %s (%d bytes), want %s (%d bytes)", got, n, want, w)
	}
	x := extraOf(id, d[:w])
	if got := extraKey(x.ID(), x.Data(), x.Value()); got != want {
		c.failf("item built as %s, want %s", got, want)
	}
}

// a location report with known and unknown items, possibly with a wrong length
func drvExtras(c *vc) {
	lay := vlay["T808_0x0200"]
	e := new(protocol.T808_0x0200)
	sv := reflect.ValueOf(e).Elem()
	c.gen(lay, sv, nil)
	e.Extras = nil
	b := wireOf(lay, sv)
	var want []string
	ok := true
	k := c.Intn(8)
	if c.flip(8) { // more items than there are types
		k = c.Intn(48)
	}
	for ; k > 0; k-- {
		id := byte(c.uint(8))
		if !c.flip(4) || id == xbigID {
			id = extraIDs[c.Intn(len(extraIDs))]
		}
		var d []byte
		if extraKnown(id) {
			d = c.extraData(id)
			if c.flip(12) {
				if c.flip(2) && len(d) > 0 {
					d = d[:len(d)-1]
				} else {
					d = append(d, c.bytes(1+c.Intn(2))...)
				}
			}
			v, good := extraValue(id, d)
			ok = ok && good
			want = append(want, extraKey(id, d, v))
		} else {
			d = c.bytes(c.size(40))
			if c.flip(10) {
				d = c.bytes(255)
			}
		}
		b = append(b, id, byte(len(d)))
		b = append(b, d...)
	}
	if c.flip(10) {
		b = append(b, byte(c.uint(8)), byte(1+c.Intn(255)))
		ok = false
	}
	c.key = string(b)
	c.note("T808_0x0200.Decode(%x)", b)
	d := new(protocol.T808_0x0200)
	n, err := d.Decode(b)
	if ok != (err == nil) {
		c.failf("report decoded with error %v, want accepted=%v", err, ok)
		return
	}
	if !ok {
		return
	}
	var got []string
	var ids []byte
	for _, x := range d.Extras {
		got = append(got, extraKey(x.ID(), x.Data(), x.Value()))
		ids = append(ids, x.ID())
	}
	if fmt.Sprint(got) != fmt.Sprint(want) || n > len(b) {
		c.failf("items\n got  %v\n want %v", got, want)
		return
	}
	// encode again: the known items in order
	out, err := d.Encode()
	if err != nil {
		c.failf("encoding the report fails: %v", err)
		return
	}
	var tail []byte
	for i, x := range d.Extras {
		tail = append(append(tail, ids[i], byte(len(x.Data()))), x.Data()...)
	}
	if len(out) < 28 || !bytes.Equal(out[28:], tail) {
		c.failf("items encoded as %x, want %x", out[28:], tail)
	}
}

// xbig is an item type registered by the user: any data, of any length.
type xbig struct{ data []byte }

const xbigID = 0xe1

func (*xbig) ID() byte             { return xbigID }
func (x *xbig) Data() []byte       { return x.data }
func (x *xbig) Value() interface{} { return string(x.data) }
func (x *xbig) Decode(b []byte) (int, error) {
	x.data = append([]byte{}, b...)
	return len(b), nil
}

var xbigOnce sync.Once

// drvExtraList: the items of a report, of built-in and registered types and up
// to 255 bytes each, are encoded in order and decoded again.
func drvExtraList(c *vc) {
	xbigOnce.Do(func() { extra.Register(xbigID, func() extra.Entity { return new(xbig) }) })
	lay := vlay["T808_0x0200"]
	e := new(protocol.T808_0x0200)
	c.gen(lay, reflect.ValueOf(e).Elem(), nil)
	e.Extras = nil
	b := wireOf(lay, reflect.ValueOf(e).Elem())
	var want []string
	nils := 0
	for k := c.Intn(9); k > 0; k-- {
		var x extra.Entity
		switch c.Intn(5) {
		case 0, 1:
			x = &xbig{c.bytes(c.size(255))}
		default:
			x = c.extra()
		}
		if c.flip(8) { // an entry without an item stands for nothing
			nils++
			if c.flip(2) {
				e.Extras = append(e.Extras, nil)
			} else {
				e.Extras = append(e.Extras, (*extra.Extra_0x01)(nil))
			}
		}
		e.Extras = append(e.Extras, x)
		b = append(append(b, x.ID(), byte(len(x.Data()))), x.Data()...)
		want = append(want, extraKey(x.ID(), x.Data(), x.Value()))
	}
	c.key = fmt.Sprint(b, nils)
	c.note("T808_0x0200.Encode with items %v and %d empty entries", want, nils)
	out, err := e.Encode()
	if err != nil {
		c.failf("Encode fails: %v", err)
		return
	}
	if !bytes.Equal(out, b) {
		c.failf("report\n got  %x\n want %x", out, b)
		return
	}
	d := new(protocol.T808_0x0200)
	if _, err := d.Decode(b); err != nil {
		c.failf("Decode(%x) fails: %v", b, err)
		return
	}
	var got []string
	for _, x := range d.Extras {
		got = append(got, extraKey(x.ID(), x.Data(), x.Value()))
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.failf("items\n got  %v\n want %v", got, want)
	}
}

// ---- flags ---------------------------------------------------------------------

func drvFlags(c *vc) {
	set := c.flip(2)
	v := uint32(c.uint(32))
	c.note("flags %08x set %v", v, set)
	c.key = fmt.Sprint(v, set)
	withBit := func(x uint64, bit int) uint64 {
		if set {
			return x | 1<<uint(bit)
		}
		return x &^ (1 << uint(bit))
	}
	chk := func(name string, got, want uint64) {
		if got != want {
			c.failf("%s on %08x (set=%v): %x, want %x", name, v, set, got, want)
		}
	}
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	{
		s := protocol.T808_0x0200_Status(v)
		chk("Status.GetAccState", b2u(s.GetAccState()), uint64(v&1))
		chk("Status.Positioning", b2u(s.Positioning()), uint64(v>>1&1))
		chk("Status.GetLatitudeType", uint64(s.GetLatitudeType()), uint64(v>>2&1))
		chk("Status.GetLongitudeType", uint64(s.GetLongitudeType()), uint64(v>>3&1))
		s.SetSouthLatitude(set)
		chk("Status.SetSouthLatitude", uint64(s), withBit(uint64(v), 2))
		s = protocol.T808_0x0200_Status(v)
		s.SetWestLongitude(set)
		chk("Status.SetWestLongitude", uint64(s), withBit(uint64(v), 3))
	}
	{
		u := uint64(uint16(v))
		a := protocol.AreaAttribute(u)
		chk("AreaAttribute.GetLatitudeType", uint64(a.GetLatitudeType()), u>>6&1)
		chk("AreaAttribute.GetLongitudeType", uint64(a.GetLongitudeType()), u>>7&1)
		a.SetSouthLatitude(set)
		chk("AreaAttribute.SetSouthLatitude", uint64(a), withBit(u, 6))
		a = protocol.AreaAttribute(u)
		a.SetWestLongitude(set)
		chk("AreaAttribute.SetWestLongitude", uint64(a), withBit(u, 7))
		a = protocol.AreaAttribute(u)
		a.SetExitAlarm(set)
		chk("AreaAttribute.SetExitAlarm", uint64(a), withBit(u, 5))
		a = protocol.AreaAttribute(u)
		a.SetEnterAlarm(set)
		chk("AreaAttribute.SetEnterAlarm", uint64(a), withBit(u, 3))
	}
	{
		u := uint64(byte(v))
		a := protocol.T808_0x8606_SectionAttribute(u)
		chk("SectionAttribute.HasTimeLimit", b2u(a.HasTimeLimit()), u&1)
		chk("SectionAttribute.HasSpeedLimit", b2u(a.HasSpeedLimit()), u>>1&1)
		chk("SectionAttribute.GetLatitudeType", uint64(a.GetLatitudeType()), u>>2&1)
		chk("SectionAttribute.GetLongitudeType", uint64(a.GetLongitudeType()), u>>3&1)
		a.SetTimeLimit(set)
		chk("SectionAttribute.SetTimeLimit", uint64(a), withBit(u, 0))
		a = protocol.T808_0x8606_SectionAttribute(u)
		a.SetSpeedLimit(set)
		chk("SectionAttribute.SetSpeedLimit", uint64(a), withBit(u, 1))
		a = protocol.T808_0x8606_SectionAttribute(u)
		a.SetSouthLatitude(set)
		chk("SectionAttribute.SetSouthLatitude", uint64(a), withBit(u, 2))
		a = protocol.T808_0x8606_SectionAttribute(u)
		a.SetWestLongitude(set)
		chk("SectionAttribute.SetWestLongitude", uint64(a), withBit(u, 3))
		f := protocol.T808_0x8500_Flag(u)
		f.SetLock(set)
		chk("T808_0x8500_Flag.SetLock", uint64(f), withBit(u, 0))
	}
	off := c.Intn(40)
	for _, w := range []int{8, 16, 32} {
		u := uint64(v) & (1<<uint(w) - 1)
		bit, nv := uint64(0), u
		if off < w {
			bit, nv = u>>uint(off)&1, withBit(u, off)
		}
		switch w {
		case 8:
			x := byte(u)
			chk(fmt.Sprintf("GetBitByte %d", off), b2u(protocol.GetBitByte(x, off)), bit)
			protocol.SetBitByte(&x, off, set)
			chk(fmt.Sprintf("SetBitByte %d", off), uint64(x), nv)
		case 16:
			x := uint16(u)
			chk(fmt.Sprintf("GetBitUint16 %d", off), b2u(protocol.GetBitUint16(x, off)), bit)
			protocol.SetBitUint16(&x, off, set)
			chk(fmt.Sprintf("SetBitUint16 %d", off), uint64(x), nv)
		case 32:
			x := uint32(u)
			chk(fmt.Sprintf("GetBitUint32 %d", off), b2u(protocol.GetBitUint32(x, off)), bit)
			protocol.SetBitUint32(&x, off, set)
			chk(fmt.Sprintf("SetBitUint32 %d", off), uint64(x), nv)
		}
	}
}

// ---- time ----------------------------------------------------------------------

func drvBcdTime(c *vc) {
	if c.flip(2) {
		t := c.time()
		pre := c.bytes(c.Intn(3))
		w := protocol.NewWriter()
		w.Write(pre)
		w.WriteBcdTime(t.Add(time.Duration(c.Intn(1000000000))))
		b := w.Bytes()
		want := append(append([]byte{}, pre...), bcdBytes(t.In(time.Local).Format("060102150405"), 6)...)
		c.key = string(want)
		c.note("WriteBcdTime(%v)", t)
		if !bytes.Equal(b, want) {
			c.failf("WriteBcdTime(%v) = %x, want %x", t, b, want)
			return
		}
		r := protocol.NewReader(b[len(pre):])
		got, err := r.ReadBcdTime()
		if err != nil || got.Unix() != t.Unix() || got.Nanosecond() != 0 {
			c.failf("ReadBcdTime(%x) = %v, %v; want %v", b[len(pre):], got, err, t)
		}
		return
	}
	b := bcdBytes(c.time().In(time.Local).Format("060102150405"), 6)
	switch c.Intn(5) {
	case 0:
		b[c.Intn(6)] = byte(c.uint(8))
	case 1:
		b[1+c.Intn(2)] = byte(c.Intn(64))
	case 2:
		b = c.bytes(c.Intn(8))
	case 3: // day 29..31 of some month
		b[1], b[2] = byte(c.Intn(2)<<4|c.Intn(10)), byte(0x29+c.Intn(9))
	}
	c.key = string(b)
	c.note("ReadBcdTime(%x)", b)
	var want time.Time
	ok := len(b) >= 6
	if ok {
		for _, x := range b[:6] {
			ok = ok && x>>4 <= 9 && x&15 <= 9
		}
	}
	if ok {
		n := func(i int) int { return int(b[i]>>4)*10 + int(b[i]&15) }
		want = time.Date(2000+n(0), time.Month(n(1)), n(2), n(3), n(4), n(5), 0, time.Local)
		ok = n(1) >= 1 && n(1) <= 12 && n(2) >= 1 && n(3) < 24 && n(4) < 60 && n(5) < 60 && want.Day() == n(2)
	}
	r := protocol.NewReader(b)
	got, err := r.ReadBcdTime()
	if (err == nil) != ok {
		c.failf("ReadBcdTime(%x): error %v, want accepted=%v", b, err, ok)
		return
	}
	if ok && !got.Equal(want) {
		c.failf("ReadBcdTime(%x) = %v, want %v", b, got, want)
	}
}

// ---- parameters ----------------------------------------------------------------

func drvParam(c *vc) {
	p := new(protocol.Param)
	for k := 0; k < 1+c.Intn(3); k++ {
		id := uint32(c.uint(32))
		var want []byte
		switch c.Intn(5) {
		case 0:
			v := byte(c.uint(8))
			c.note("SetByte(%d,%d)", id, v)
			p.SetByte(id, v)
			want = []byte{v}
			if g, err := p.GetByte(); err != nil || g != v {
				c.failf("GetByte = %d, %v", g, err)
			}
		case 1:
			v := uint16(c.uint(16))
			c.note("SetUint16(%d,%d)", id, v)
			p.SetUint16(id, v)
			want = be(2, uint64(v))
			if g, err := p.GetUint16(); err != nil || g != v {
				c.failf("GetUint16 = %d, %v", g, err)
			}
		case 2:
			v := uint32(c.uint(32))
			c.note("SetUint32(%d,%d)", id, v)
			p.SetUint32(id, v)
			want = be(4, uint64(v))
			if g, err := p.GetUint32(); err != nil || g != v {
				c.failf("GetUint32 = %d, %v", g, err)
			}
		case 3:
			v := c.bytes(c.size(255))
			c.note("SetBytes(%d,%x)", id, v)
			want = append([]byte{}, v...)
			p.SetBytes(id, v)
			for i := range v {
				v[i] ^= 0x5a
			}
			if g, err := p.GetBytes(); err == nil {
				for i := range g {
					g[i] ^= 0xa5
				}
			}
		default:
			v := c.text(200, true)
			c.note("SetString(%d,%q)", id, v)
			p.SetString(id, v)
			want, _ = gbEncode(v)
			if g, err := p.GetString(); err != nil || g != v {
				c.failf("GetString = %q, %v; want %q", g, err, v)
			}
		}
		c.key += fmt.Sprintf("%d:%x;", id, want)
		if p.ID() != id {
			c.failf("ID = %d, want %d", p.ID(), id)
		}
		if g, err := p.GetBytes(); err != nil || !bytes.Equal(g, want) {
			c.failf("GetBytes = %x, %v; want %x", g, err, want)
		}
		if _, err := p.GetByte(); len(want) < 1 && err == nil {
			c.failf("GetByte of %x succeeds", want)
		}
		if _, err := p.GetUint16(); len(want) < 2 && err == nil {
			c.failf("GetUint16 of %x succeeds", want)
		}
		if _, err := p.GetUint32(); len(want) < 4 && err == nil {
			c.failf("GetUint32 of %x succeeds", want)
		}
		p.GetString()
		// through a message
		for _, m := range []protocol.Entity{&protocol.T808_0x8103{Params: []*protocol.Param{p, p}}, &protocol.T808_0x0104{Params: []*protocol.Param{p}}} {
			if len(want) > 255 {
				break
			}
			b, err := m.Encode()
			if err != nil {
				c.failf("%T.Encode: %v", m, err)
				continue
			}
			d := reflect.New(reflect.TypeOf(m).Elem()).Interface().(protocol.Entity)
			if _, err := d.Decode(b); err != nil {
				c.failf("%T.Decode: %v", m, err)
				continue
			}
			ps := reflect.ValueOf(d).Elem().FieldByName("Params").Interface().([]*protocol.Param)
			if len(ps) != reflect.ValueOf(m).Elem().FieldByName("Params").Len() {
				c.failf("%T: %d params after the round trip", m, len(ps))
				continue
			}
			for _, q := range ps {
				if g, _ := q.GetBytes(); q.ID() != id || !bytes.Equal(g, want) {
					c.failf("%T: parameter arrives as %d %x, want %d %x", m, q.ID(), g, id, want)
				}
			}
		}
	}
}

// drvParamFrame: setting one decoded parameter changes neither its neighbours nor
// the bytes that were decoded.
func drvParamFrame(c *vc) {
	n := 2 + c.Intn(5)
	var ps []*protocol.Param
	var want [][]byte
	for i := 0; i < n; i++ {
		p := new(protocol.Param)
		v := c.bytes(c.Intn(20))
		p.SetBytes(uint32(i), v)
		ps = append(ps, p)
		want = append(want, append([]byte{}, v...))
	}
	raw, err := (&protocol.T808_0x8103{Params: ps}).Encode()
	if err != nil {
		c.failf("T808_0x8103.Encode: %v", err)
		return
	}
	buf := append(raw, c.bytes(8)...)
	keep := append([]byte{}, buf...)
	raw = buf[:len(raw)]
	c.key = string(raw)
	var d protocol.T808_0x8103
	if _, err := d.Decode(raw); err != nil || len(d.Params) != n {
		c.failf("T808_0x8103.Decode(%x): %v, %d parameters, want %d", raw, err, len(d.Params), n)
		return
	}
	for k := 0; k < 1+c.Intn(4); k++ {
		i := c.Intn(n)
		p := d.Params[i]
		switch c.Intn(5) {
		case 0:
			p.SetByte(uint32(i), 0xa5)
			want[i] = []byte{0xa5}
		case 1:
			p.SetUint16(uint32(i), 0xa5b6)
			want[i] = []byte{0xa5, 0xb6}
		case 2:
			p.SetUint32(uint32(i), 0xa5b6c7d8)
			want[i] = []byte{0xa5, 0xb6, 0xc7, 0xd8}
		case 3:
			v := c.bytes(c.Intn(40))
			want[i] = append([]byte{}, v...)
			p.SetBytes(uint32(i), v)
		default:
			v := c.text(40, true)
			want[i], _ = gbEncode(v)
			p.SetString(uint32(i), v)
		}
		c.note("T808_0x8103.Decode(%x), then parameter %d set to %x", raw, i, want[i])
		for j, q := range d.Params {
			if g, err := q.GetBytes(); err != nil || q.ID() != uint32(j) || !bytes.Equal(g, want[j]) {
				c.failf("parameter %d reads %x (%v), want %x", j, g, err, want[j])
			}
		}
		if !bytes.Equal(buf, keep) {
			c.failf("setting a decoded parameter changes the received message\n from %x\n to   %x", keep, buf)
		}
		if len(c.fails) > 0 {
			return
		}
	}
}

// ---- encryption ----------------------------------------------------------------

var vkeys = struct {
	sync.Mutex
	m map[int]*rsa.PrivateKey
}{m: map[int]*rsa.PrivateKey{}}

func vkey(bits int) *rsa.PrivateKey {
	vkeys.Lock()
	defer vkeys.Unlock()
	k := vkeys.m[bits]
	if k == nil {
		var err error
		if k, err = rsa.GenerateKey(rand.Reader, bits); err != nil {
			return nil
		}
		vkeys.m[bits] = k
	}
	return k
}
func drvCrypt(c *vc) {
	bits := []int{1024, 1024, 1024, 2048}[c.Intn(4)]
	k := vkey(bits)
	if k == nil {
		c.inconclusive("no key")
		return
	}
	h := crypto.SHA1
	if c.flip(5) {
		h = []crypto.Hash{crypto.SHA256, crypto.SHA512}[c.Intn(2)]
	}
	if c.flip(10) {
		h, bits = crypto.SHA512, 1048 // one byte a chunk
		if k = vkey(bits); k == nil {
			c.inconclusive("no key")
			return
		}
	}
	var label []byte
	if c.flip(4) {
		label = c.bytes(1 + c.Intn(20))
	}
	lim := k.Size() - 2*h.Size() - 2
	if lim <= 0 {
		h, lim = crypto.SHA1, k.Size()-42
	}
	n := c.size(400)
	if lim < 10 {
		n = c.Intn(6)
	}
	switch c.Intn(4) {
	case 0:
		n = 0
	case 1:
		n = lim * (1 + c.Intn(6))
	case 2:
		n = lim*(1+c.Intn(6)) + c.Intn(3) - 1
	}
	msg := c.bytes(n)
	in := append([]byte{}, msg...)
	c.key = fmt.Sprint(bits, h, n, msg)
	c.note("EncryptOAEP of %d bytes with a %d bit key, %v (chunk %d): %x", n, bits, h, lim, vcutb(msg))
	ct, err := protocol.EncryptOAEP(h.New(), &k.PublicKey, in, label)
	if err != nil {
		c.failf("EncryptOAEP fails: %v", err)
		return
	}
	if !bytes.Equal(in, msg) {
		c.failf("EncryptOAEP changes the plain text")
	}
	if want := (n + lim - 1) / lim * k.Size(); len(ct) != want {
		c.failf("EncryptOAEP gives %d bytes, want %d", len(ct), want)
	}
	pt, err := protocol.DecryptOAEP(h.New(), k, ct, label)
	if err != nil || !bytes.Equal(pt, msg) {
		c.failf("DecryptOAEP gives %x (%v)", vcutb(pt), err)
		return
	}
	if len(ct) > 0 {
		bad := append([]byte{}, ct...)
		bad[c.Intn(len(bad))] ^= byte(1 + c.Intn(255))
		if pt, err := protocol.DecryptOAEP(h.New(), k, bad, label); err == nil {
			c.failf("a damaged cipher text decrypts to %x", vcutb(pt))
		}
		if _, err := protocol.DecryptOAEP(h.New(), k, ct[:len(ct)-1], label); err == nil {
			c.failf("a truncated cipher text decrypts")
		}
	}
}
func vcutb(b []byte) []byte {
	if len(b) > 400 {
		return b[:400]
	}
	return b
}

// keys that cannot carry anything
func drvCryptSmall(c *vc) {
	n := c.Intn(3)
	mod := make([]byte, 1+c.Intn(60))
	c.Read(mod)
	mod[0] |= 0x80
	mod[len(mod)-1] |= 1
	pub := &rsa.PublicKey{N: bigFrom(mod), E: 65537}
	msg := c.bytes(n * (1 + c.Intn(50)))
	c.key = fmt.Sprint(len(mod), len(msg))
	c.note("EncryptOAEP of %d bytes with a modulus of %d bytes", len(msg), len(mod))
	ct, err := protocol.EncryptOAEP(sha1.New(), pub, msg, nil)
	if len(mod)-42 <= 0 && err == nil {
		c.failf("a key of %d bytes is accepted (%d bytes out)", len(mod), len(ct))
	}
}

// a frame with an encrypted body
func drvCryptMessage(c *vc) {
	k := vkey(1024)
	if k == nil {
		c.inconclusive("no key")
		return
	}
	n := c.Intn(500)
	if c.flip(3) {
		n = 86 * c.Intn(6)
	}
	body := c.bytes(n)
	m := protocol.Message{Header: c.header(), Body: &rawEntity{id: rawIDs[c.Intn(len(rawIDs))], data: body}}
	c.key = fmt.Sprint(hdrStr(m.Header), body)
	c.note("encrypted message %s with %d bytes %x", hdrStr(m.Header), n, vcutb(body))
	f, err := m.Encode(&k.PublicKey)
	if err != nil {
		c.failf("Encode fails: %v", err)
		return
	}
	var d protocol.Message
	if err := d.Decode(f, k); err != nil {
		c.failf("Decode fails: %v", err)
		return
	}
	if !d.Header.Property.IsEnableEncrypt() {
		c.failf("the encryption bit is not set")
	}
	r, ok := d.Body.(*rawEntity)
	if !ok || !bytes.Equal(r.data, body) {
		c.failf("the body arrives as %v", d.Body)
	}
	if n > 0 {
		var e protocol.Message
		if err := e.Decode(f); err == nil {
			c.failf("an encrypted frame is accepted without a key")
		}
	}
}

var _ = decimal.Zero
