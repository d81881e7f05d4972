package HARNESS

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"github.com/shopspring/decimal"
)

func init() {
	vdrivers = append(vdrivers,
		vdriver{name: "roundtrip", props: "C01", n: 12000, par: true, run: drvRoundtrip},
		vdriver{name: "wire", props: "C02", n: 12000, par: true, run: drvWire},
		vdriver{name: "decode", props: "C04", n: 24000, par: true, run: drvDecode},
		vdriver{name: "arbitrary", props: "C03", n: 24000, par: true, run: drvArbitrary},
	)
	// T808_0x0901.Encode prints to standard output
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
}

var vmsgs = func() []*Layout {
	var out []*Layout
	for _, l := range vorder {
		if l.MsgID >= 0 {
			out = append(out, l)
		}
	}
	return out
}()

func newEntity(lay *Layout) protocol.Entity { return vnew[lay.Name]() }

// pick: the layout of this case; hinted types come up more often.
func (c *vc) pick() *Layout {
	if len(c.only) > 0 {
		return c.only[c.idx%len(c.only)]
	}
	if c.idx >= 2*len(vmsgs) && c.flip(2) {
		var hot []string
		for t := range c.h.hints.Bodies {
			hot = append(hot, t)
		}
		for t := range c.h.hints.Fields {
			hot = append(hot, t)
		}
		sort.Strings(hot)
		if len(hot) > 0 {
			if l := vlay[hot[c.Intn(len(hot))]]; l != nil && l.MsgID >= 0 {
				return l
			}
		}
	}
	return vmsgs[c.idx%len(vmsgs)]
}

// value makes a representable value, guided by the leaves of refuted obligations.
func (c *vc) value(lay *Layout) (protocol.Entity, reflect.Value) {
	e := newEntity(lay)
	sv := reflect.ValueOf(e).Elem()
	c.gen(lay, sv, nil)
	if hs := c.h.hints.Fields[lay.Name]; len(hs) > 0 && c.flip(2) {
		h := hs[c.Intn(len(hs))]
		for _, n := range lay.Nodes {
			x, ok := h[n.Field]
			if !ok || c.flip(8) {
				continue
			}
			u, err := strconv.ParseUint(strings.Replace(x, "#x", "", 1), 16, 64)
			if err != nil {
				continue
			}
			f := sv.FieldByName(n.Field)
			switch n.Op {
			case "u8", "u16", "u32":
				setInt(f, u&(1<<uint(8*opsz(n.Op))-1))
			case "geo":
				f.Set(reflect.ValueOf(decimal.New(int64(u), -6)))
			case "time":
				if int64(u) >= 946684800 && int64(u) < 4102444800 {
					f.Set(reflect.ValueOf(time.Unix(int64(u), 0)))
				}
			}
		}
		// keep it representable
		for _, n := range lay.Nodes {
			if n.Op == "geo" {
				fl := sv.FieldByName(n.Flag)
				if micro(sv.FieldByName(n.Field)) > 0 {
					fl.SetUint(fl.Uint() &^ (1 << uint(n.Bit)))
				}
			}
		}
	}
	return e, sv
}

func drvRoundtrip(c *vc) {
	lay := c.pick()
	e, sv := c.value(lay)
	want := valKey(lay, sv, true)
	if lay.Name == "T808_0x0801" {
		want = strings.Replace(want, "Packet=packet", "Packet=-", 1)
	}
	c.key = lay.Name + want
	c.note("%s %s", lay.Name, want)
	b, err := e.Encode()
	if err != nil {
		c.failf("%s: encoding a representable value fails: %v", lay.Name, err)
		return
	}
	c.note("encoded %x", b)
	// the encoder must not change the caller's value except for hemisphere flags
	d := newEntity(lay)
	n, err := d.Decode(b)
	if err != nil {
		c.failf("%s: decoding the encoded bytes fails: %v", lay.Name, err)
		return
	}
	if n < 0 || n > len(b) {
		c.failf("%s: Decode reports %d of %d bytes", lay.Name, n, len(b))
	}
	if got := valKey(lay, reflect.ValueOf(d).Elem(), false); got != want {
		c.failf("%s: decoded value differs\n got  %s\n want %s", lay.Name, got, want)
	}
}

func drvWire(c *vc) {
	lay := c.pick()
	e, sv := c.value(lay)
	want := wireOf(lay, sv)
	key := valKey(lay, sv, true)
	c.key = lay.Name + key
	c.note("%s %s", lay.Name, key)
	b, err := e.Encode()
	if err != nil {
		c.failf("%s: encoding a representable value fails: %v", lay.Name, err)
		return
	}
	if lay.Name == "T808_0x0901" {
		// any gzip stream of the data will do
		got, ok := parseKey(lay, b)
		if !ok || got != key || len(b) < 4 || int(be32(b)) != len(b)-4 {
			c.failf("T808_0x0901: body %x is not length and gzip stream of the data", b)
		}
		return
	}
	if !bytes.Equal(b, want) {
		c.failf("%s: wire image differs\n got  %x\n want %x", lay.Name, b, want)
	}
}
func be32(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// body makes a body of some relation to the layout: well-formed, damaged, cut, extended or random.
func (c *vc) body(lay *Layout) []byte {
	if hs := c.h.hints.Bodies[lay.Name]; len(hs) > 0 && c.flip(2) {
		b, _ := hex.DecodeString(hs[c.Intn(len(hs))])
		if c.flip(2) {
			return b
		}
		return c.damage(b)
	}
	if c.flip(8) {
		return c.bytes(c.size(200))
	}
	e := newEntity(lay)
	sv := reflect.ValueOf(e).Elem()
	c.gen(lay, sv, nil)
	b := wireOf(lay, sv)
	if c.flip(3) {
		return b
	}
	return c.damage(b)
}
func (c *vc) damage(b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + c.Intn(2); k > 0; k-- {
		switch c.Intn(7) {
		case 0, 1: // cut
			if len(b) > 0 {
				if c.flip(2) {
					b = b[:len(b)-1-c.Intn(min(len(b), 8))]
				} else {
					b = b[:c.Intn(len(b))]
				}
			}
		case 2: // extend
			b = append(b, c.bytes(1+c.Intn(9))...)
		case 3, 4: // set a byte
			if len(b) > 0 {
				i := c.Intn(len(b))
				if c.flip(2) {
					i = c.Intn(min(len(b), 12))
				}
				b[i] = byte(c.uint(8))
			}
		case 5: // set a word
			if len(b) > 3 {
				i := c.Intn(len(b) - 3)
				copy(b[i:], be(4, c.uint(32)))
			}
		case 6: // remove or insert in the middle
			if len(b) > 1 {
				i := c.Intn(len(b))
				if c.flip(2) {
					b = append(b[:i], b[i+1:]...)
				} else {
					b = append(b[:i], append(c.bytes(1), b[i:]...)...)
				}
			}
		}
	}
	return b
}
func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func drvDecode(c *vc) {
	lay := c.pick()
	b := c.body(lay)
	c.key = lay.Name + string(b)
	c.note("%s.Decode(%x)", lay.Name, b)
	want, ok := parseKey(lay, append([]byte{}, b...))
	c.note("layout: ok=%v %s", ok, want)
	in := append([]byte{}, b...)
	d := newEntity(lay)
	n, err := d.Decode(in)
	if !bytes.Equal(in, b) {
		c.failf("%s: Decode changes its input", lay.Name)
	}
	if err != nil {
		if ok && c.canonical(lay, b) {
			c.failf("%s: a well-formed body is rejected: %v", lay.Name, err)
		}
		return
	}
	if n < 0 || n > len(b) {
		c.failf("%s: Decode reports %d of %d bytes", lay.Name, n, len(b))
	}
	got := valKey(lay, reflect.ValueOf(d).Elem(), false)
	if !ok {
		c.failf("%s: a malformed body is accepted as %s", lay.Name, got)
		return
	}
	if got != want {
		c.failf("%s: decoded value is not what the bytes say\n got  %s\n want %s", lay.Name, got, want)
	}
}

// canonical: acceptance is only demanded of bodies without trailing bytes.
func (c *vc) canonical(lay *Layout, b []byte) bool {
	p := &vparse{b: b, ok: true}
	p.parse(lay)
	return p.ok && (len(p.b) == 0 || lay.Name == "T808_0x0801")
}

func drvArbitrary(c *vc) {
	lay := c.pick()
	b := c.body(lay)
	c.key = lay.Name + string(b)
	switch c.Intn(6) {
	case 0: // a frame around it
		f := c.frameOf(lay, b)
		c.note("Message.Decode(%x)", f)
		var m protocol.Message
		m.Decode(f)
	case 1:
		b = c.bytes(c.size(40))
		c.note("Header.Decode(%x)", b)
		var h protocol.Header
		h.Decode(b)
	case 2:
		id := byte(c.uint(8))
		if c.flip(2) {
			id = extraIDs[c.Intn(len(extraIDs))]
		}
		b = c.bytes(c.size(12))
		c.note("extra.Decode(%d, %x)", id, b)
		_, n, err := extra.Decode(id, b)
		if err == nil && (n < 0 || n > len(b)) {
			c.failf("extra.Decode(0x%02x) reports %d of %d bytes", id, n, len(b))
		}
	default:
		c.note("%s.Decode(%x)", lay.Name, b)
		d := newEntity(lay)
		n, err := d.Decode(b)
		if err == nil && (n < 0 || n > len(b)) {
			c.failf("%s: Decode reports %d of %d bytes", lay.Name, n, len(b))
		}
	}
}

// frameOf: a frame with a (possibly damaged) header and the body.
func (c *vc) frameOf(lay *Layout, body []byte) []byte {
	if c.flip(5) {
		b := c.bytes(c.size(30))
		if c.flip(2) {
			b = append([]byte{0x7e}, append(b, 0x7e)...)
		}
		return b
	}
	prop := uint64(len(body)) & 0x3ff
	if c.flip(4) {
		prop = c.uint(16)
	}
	h := append(be(2, uint64(lay.MsgID)), be(2, prop)...)
	h = append(h, c.bytes(6)...)
	if c.flip(2) {
		copy(h[4:10], bcdBytes(fmt.Sprint(c.Intn(1000000)), 6))
	}
	h = append(h, c.bytes(2)...)
	if prop>>13&1 == 1 && c.flip(2) {
		h = append(h, c.bytes(4)...)
	}
	raw := append(h, body...)
	if c.flip(4) {
		raw = c.damage(raw)
	}
	x := byte(0)
	for _, b := range raw {
		x ^= b
	}
	if c.flip(8) {
		x = byte(c.uint(8))
	}
	raw = append(raw, x)
	out := []byte{0x7e}
	for _, b := range raw {
		switch b {
		case 0x7e:
			out = append(out, 0x7d, 2)
		case 0x7d:
			out = append(out, 0x7d, 1)
		default:
			out = append(out, b)
		}
	}
	out = append(out, 0x7e)
	if c.flip(6) {
		out = c.damage(out)
	}
	return out
}
