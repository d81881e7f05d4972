package HARNESS

import (
	"bytes"
	"errors"
	"fmt"
	"io/ioutil"
	"math/big"
	"reflect"

	"gitee.com/coco/go808/protocol"
)

func init() {
	for _, id := range rawIDs {
		id := id
		protocol.Register(uint16(id), func() protocol.Entity { return &rawEntity{id: id} })
	}
	vdrivers = append(vdrivers,
		vdriver{name: "frame", props: "C05", n: 20000, par: true, run: drvFrame},
		vdriver{name: "framemsg", props: "C05", n: 8000, par: true, run: drvFrameMsg},
		vdriver{name: "framecrypt", props: "C05", n: 300, par: true, run: drvFrameCrypt},
		vdriver{name: "damage", props: "C06", n: 40000, par: true, run: drvDamage},
		vdriver{name: "onebyte", props: "C06", n: 20000, par: true, run: drvOneByte},
		vdriver{name: "registry", props: "C09", n: 12000, par: true, run: drvRegistry},
		vdriver{name: "nobody", props: "C09", n: 12000, par: true, run: drvNoBody},
		vdriver{name: "unknownids", props: "C09", n: 4, par: true, run: drvUnknownIDs},
		vdriver{name: "frames", props: "C03", n: 20000, par: true, run: drvFrameArbitrary},
	)
}

// rawEntity is a body with arbitrary bytes.
type rawEntity struct {
	id   protocol.MsgID
	data []byte
	fail bool
}

var rawIDs = []protocol.MsgID{0x7e7d, 0x7d7e, 0x7d01, 0x0f7e}

func (r *rawEntity) MsgID() protocol.MsgID { return r.id }
func (r *rawEntity) Encode() ([]byte, error) {
	if r.fail {
		return nil, errors.New("no")
	}
	return r.data, nil
}
func (r *rawEntity) Decode(b []byte) (int, error) {
	r.data = append([]byte{}, b...)
	return len(b), nil
}
func isRaw(id uint64) bool {
	for _, r := range rawIDs {
		if uint64(r) == id {
			return true
		}
	}
	return false
}
func bigFrom(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

func esc(raw []byte) []byte {
	var out []byte
	for _, b := range raw {
		switch b {
		case 0x7e:
			out = append(out, 0x7d, 2)
		case 0x7d:
			out = append(out, 0x7d, 1)
		default:
			out = append(out, b)
		}
	}
	return out
}
func xor(b []byte) byte {
	x := byte(0)
	for _, c := range b {
		x ^= c
	}
	return x
}
func frame(raw []byte) []byte {
	return append(append([]byte{0x7e}, esc(append(append([]byte{}, raw...), xor(raw)))...), 0x7e)
}

// unframe: the unescaped header and body, if the bytes satisfy the frame rules.
func unframe(f []byte) ([]byte, bool) {
	if len(f) < 2 || f[0] != 0x7e || f[len(f)-1] != 0x7e {
		return nil, false
	}
	var out []byte
	in := f[1 : len(f)-1]
	for i := 0; i < len(in); i++ {
		if in[i] != 0x7d {
			out = append(out, in[i])
			continue
		}
		i++
		if i >= len(in) || in[i] != 1 && in[i] != 2 {
			return nil, false
		}
		out = append(out, 0x7c+in[i])
	}
	if len(out) < 2 {
		return nil, false
	}
	raw := out[:len(out)-1]
	if xor(raw) != out[len(out)-1] {
		return nil, false
	}
	return raw, true
}
func (c *vc) flagBytes(n int) []byte {
	b := c.bytes(n)
	if c.flip(2) {
		for i := range b {
			if c.flip(2) {
				b[i] = []byte{0x7d, 0x7e, 0x01, 0x02}[c.Intn(4)]
			}
		}
	}
	return b
}
func drvFrame(c *vc) {
	n := c.size(1023)
	h := c.header()
	h.Property &^= 1 << 10
	h.Property &^= 0x3ff
	if c.flip(3) {
		h.Property |= 0x7d
	}
	if c.flip(3) {
		h.MsgSerialNo = []uint16{0x7d7e, 0x7e7e, 0x7d01, 0x7d02}[c.Intn(4)]
	}
	var ent protocol.Entity
	var body []byte
	switch c.Intn(12) {
	case 0:
	case 1:
		ent = (*rawNil)(nil)
	default:
		body = c.flagBytes(n)
		ent = &rawEntity{id: rawIDs[c.Intn(len(rawIDs))], data: append([]byte{}, body...)}
	}
	m := protocol.Message{Header: h, Body: ent}
	wh := h
	if ent != nil {
		wh.MsgID = ent.MsgID()
	}
	wh.Property = wh.Property&0xfc00 | protocol.Property(len(body))
	if h.Packet != nil {
		wh.Property |= 1 << 13
	}
	// make the checksum one that needs escaping
	if r, ok := ent.(*rawEntity); ok && len(body) > 0 && c.flip(2) {
		want := []byte{0x7e, 0x7d, 0x01, 0x02}[c.Intn(4)]
		body[0] ^= xor(append(hdrBytes(wh), body...)) ^ want
		r.data = append([]byte{}, body...)
	}
	c.key = fmt.Sprintf("%s %x", hdrStr(h), body)
	c.note("Message.Encode: header %s, body %T %x", hdrStr(h), ent, body)
	f, err := m.Encode()
	if err != nil {
		c.failf("Encode fails: %v", err)
		return
	}
	want := frame(append(hdrBytes(wh), body...))
	if !bytes.Equal(f, want) {
		c.failf("frame\n got  %x\n want %x", f, want)
		return
	}
	if r, ok := ent.(*rawEntity); ok && !bytes.Equal(r.data, body) {
		c.failf("Encode changes the body bytes")
	}
	var d protocol.Message
	in := append([]byte{}, f...)
	if err := d.Decode(in); err != nil {
		c.failf("Decode(%x) fails: %v", f, err)
		return
	}
	if !bytes.Equal(in, f) {
		c.failf("Decode changes its input")
	}
	if hdrStr(d.Header) != hdrStr(wh) {
		c.failf("header\n got  %s\n want %s", hdrStr(d.Header), hdrStr(wh))
	}
	if r, ok := ent.(*rawEntity); ok {
		g, ok := d.Body.(*rawEntity)
		if !ok || g.id != r.id || !bytes.Equal(g.data, body) {
			c.failf("body arrives as %v, want %x", d.Body, body)
		}
	}
}

// rawNil: a typed nil body
type rawNil struct{ rawEntity }

func (r *rawNil) MsgID() protocol.MsgID { return 0x0f7d }

func drvFrameMsg(c *vc) {
	lay := vmsgs[c.idx%len(vmsgs)]
	e := newEntity(lay)
	sv := reflect.ValueOf(e).Elem()
	c.gen(lay, sv, nil)
	body := wireOf(lay, sv)
	want := valKey(lay, sv, true)
	if len(body) > 1023 || lay.Name == "T808_0x0901" {
		c.trivial()
		return
	}
	var packet []byte
	if m, ok := e.(*protocol.T808_0x0801); ok { // a part of an upload follows the fields
		packet = c.bytes(c.size(900))
		m.Packet = bytes.NewReader(packet)
		m.Location.Extras = nil
		body = wireOf(lay, sv)
		want = valKey(lay, sv, true)
		if len(body) > 1023 {
			c.trivial()
			return
		}
	}
	h := c.header()
	h.Property &^= 1 << 10
	m := protocol.Message{Header: h, Body: e}
	c.key = lay.Name + want
	c.note("Message.Encode %s %s", hdrStr(h), want)
	f, err := m.Encode()
	if err != nil {
		c.failf("Encode fails: %v", err)
		return
	}
	wh := h
	wh.MsgID = protocol.MsgID(lay.MsgID)
	wh.Property = wh.Property&0xfc00 | protocol.Property(len(body))
	if h.Packet != nil {
		wh.Property |= 1 << 13
	}
	if w := frame(append(hdrBytes(wh), body...)); !bytes.Equal(f, w) {
		c.failf("frame\n got  %x\n want %x", f, w)
		return
	}
	var d protocol.Message
	if err := d.Decode(f); err != nil {
		c.failf("Decode(%x) fails: %v", f, err)
		return
	}
	if d.Body == nil || reflect.TypeOf(d.Body) != reflect.TypeOf(e) {
		c.failf("body arrives as %T", d.Body)
		return
	}
	if m, ok := d.Body.(*protocol.T808_0x0801); ok {
		var got []byte
		if m.Packet != nil {
			got, _ = ioutil.ReadAll(m.Packet)
		}
		if !bytes.Equal(got, packet) {
			c.failf("the data packet arrives as %x, want %x", got, packet)
			return
		}
	}
	if got := valKey(lay, reflect.ValueOf(d.Body).Elem(), false); got != want || hdrStr(d.Header) != hdrStr(wh) {
		c.failf("message\n got  %s %s\n want %s %s", hdrStr(d.Header), got, hdrStr(wh), want)
	}
}

// drvFrameCrypt: the frame of an encrypted message is a frame of its header and
// the encrypted body.
func drvFrameCrypt(c *vc) {
	k := vkey(1024)
	if k == nil {
		c.inconclusive("no key")
		return
	}
	h := c.header()
	body := c.flagBytes(c.Intn(500))
	m := protocol.Message{Header: h, Body: &rawEntity{id: rawIDs[c.Intn(len(rawIDs))], data: body}}
	c.key = fmt.Sprintf("%s %x", hdrStr(h), body)
	c.note("Message.Encode with a key: header %s, body %x", hdrStr(h), body)
	f, err := m.Encode(&k.PublicKey)
	if err != nil {
		c.failf("Encode fails: %v", err)
		return
	}
	raw, ok := unframe(f)
	if !ok {
		c.failf("not a frame: %x", f)
		return
	}
	if !bytes.Equal(frame(raw), f) {
		c.failf("%x is escaped otherwise than %x", f, frame(raw))
		return
	}
	wh, n, ok := parseHdr(raw)
	if !ok || int(wh.Property&0x3ff) != len(raw)-n {
		c.failf("header %x does not announce the body of %d bytes", raw[:n], len(raw)-n)
		return
	}
	var d protocol.Message
	if err := d.Decode(f, k); err != nil {
		c.failf("Decode(%x) fails: %v", f, err)
		return
	}
	if r, ok := d.Body.(*rawEntity); !ok || !bytes.Equal(r.data, body) || hdrStr(d.Header) != hdrStr(wh) {
		c.failf("message %s %v, want %s %x", hdrStr(d.Header), d.Body, hdrStr(wh), body)
	}
}

// rawFrame: header and body of a frame, with small bodies
func (c *vc) rawMsg() []byte {
	h := c.header()
	h.MsgID = rawIDs[c.Intn(len(rawIDs))]
	if c.flip(4) {
		h.MsgID = protocol.MsgID(c.uint(16))
	}
	body := c.flagBytes(c.Intn(12))
	if c.flip(5) {
		body = c.flagBytes(c.Intn(300))
	}
	h.Property = h.Property &^ (1 << 10)
	if !c.flip(4) {
		h.Property = h.Property&^0x3ff | protocol.Property(len(body))
	}
	return append(hdrBytes(h), body...)
}

// judge compares Decode with the frame rules.
func (c *vc) judge(f []byte) {
	in := append([]byte{}, f...)
	var d protocol.Message
	err := d.Decode(in)
	raw, ok := unframe(f)
	var h protocol.Header
	if ok {
		h, _, ok = parseHdr(raw)
	}
	if !ok {
		if err == nil {
			c.failf("a damaged frame is accepted: %x", f)
		}
		return
	}
	if bytes.IndexByte(f[1:len(f)-1], 0x7e) >= 0 || h.Property>>10&1 == 1 {
		return
	}
	if err != nil {
		c.failf("an intact frame is rejected (%v): %x", err, f)
		return
	}
	if hdrStr(d.Header) != hdrStr(h) {
		c.failf("header\n got  %s\n want %s", hdrStr(d.Header), hdrStr(h))
	}
}
func drvDamage(c *vc) {
	raw := c.rawMsg()
	if c.flip(4) {
		raw = raw[:c.Intn(len(raw)+1)]
	}
	f := frame(raw)
	switch c.Intn(8) {
	case 0:
	case 1: // lone or wrong escape inside
		i := 1 + c.Intn(len(f)-1)
		f = append(f[:i], append([]byte{0x7d, byte(c.uint(8))}, f[i:]...)...)
	case 2: // bytes beyond or before the flags
		f = append(append([]byte{}, f...), c.bytes(1)...)
	case 3:
		f = append(c.bytes(1), f...)
	case 4: // contents whose xor is right but whose escapes are not
		body := c.flagBytes(c.Intn(30))
		f = append(append([]byte{0x7e}, body...), 0x7e)
	case 5: // an escape as last content byte
		x := esc(raw)
		x = append(x, 0x7d)
		f = append(append([]byte{0x7e}, x...), 0x7e)
		if c.flip(2) {
			sum := xor(raw)
			f = append(append(append([]byte{0x7e}, esc(raw)...), 0x7d, 1), 0x7e)
			_ = sum
		}
	case 6: // the escape of the checksum cut
		raw = append(raw, xor(raw)^0x7d)
		f = append(append(append([]byte{0x7e}, esc(raw)...), 0x7d), 0x7e)
	default:
		f = c.damage(f)
	}
	c.key = string(f)
	c.note("Message.Decode(%x)", f)
	c.judge(f)
}
func drvOneByte(c *vc) {
	raw := c.rawMsg()
	all := append(append([]byte{}, raw...), xor(raw))
	i := c.Intn(len(all))
	all[i] ^= byte(1 + c.Intn(255))
	f := append(append([]byte{0x7e}, esc(all)...), 0x7e)
	c.key = string(f)
	c.note("frame of %x with byte %d changed: %x", raw, i, f)
	var d protocol.Message
	if err := d.Decode(f); err == nil {
		c.failf("a frame with one changed byte is accepted")
	}
}
func drvFrameArbitrary(c *vc) {
	var f []byte
	switch c.Intn(4) {
	case 0:
		f = c.flagBytes(c.Intn(24))
	case 1:
		f = append(append([]byte{0x7e}, c.flagBytes(c.Intn(24))...), 0x7e)
	case 2: // right checksum around short contents
		f = frame(c.flagBytes(c.Intn(20)))
	default:
		raw := c.rawMsg()
		f = frame(raw[:c.Intn(len(raw)+1)])
	}
	c.key = string(f)
	c.note("Message.Decode(%x)", f)
	var d protocol.Message
	if err := d.Decode(f); err == nil {
		if d.Body != nil {
			d.Body.MsgID()
		}
	}
}

func drvRegistry(c *vc) {
	lay := vmsgs[c.idx%len(vmsgs)]
	e := newEntity(lay)
	sv := reflect.ValueOf(e).Elem()
	c.gen(lay, sv, nil)
	body := wireOf(lay, sv)
	if len(body) > 1023 {
		c.trivial()
		return
	}
	if e.MsgID() != protocol.MsgID(lay.MsgID) {
		c.failf("%s has id %04x, want %04x", lay.Name, uint16(e.MsgID()), lay.MsgID)
	}
	h := c.header()
	h.MsgID = protocol.MsgID(lay.MsgID)
	h.Property = h.Property&0xf800&^(1<<13) | protocol.Property(len(body))
	f := frame(append(hdrBytes(h), body...))
	c.key = lay.Name + string(body)
	c.note("Message.Decode(%x)", f)
	var d, d2 protocol.Message
	buf := append([]byte{}, f...)
	if err := d.Decode(buf); err != nil {
		c.failf("Decode fails: %v", err)
		return
	}
	if d.Body == nil || reflect.TypeOf(d.Body) != reflect.TypeOf(e) {
		c.failf("id %04x decodes to %T, want %T", lay.MsgID, d.Body, e)
		return
	}
	if lay.Name == "T808_0x0801" {
		return
	}
	want := valKey(lay, sv, true)
	if got := valKey(lay, reflect.ValueOf(d.Body).Elem(), false); got != want {
		c.failf("body\n got  %s\n want %s", got, want)
		return
	}
	if err := d2.Decode(buf); err != nil {
		c.failf("second Decode fails: %v", err)
		return
	}
	if p, q := reflect.ValueOf(d.Body).Pointer(), reflect.ValueOf(d2.Body).Pointer(); p == q && reflect.TypeOf(d.Body).Elem().Size() > 0 {
		c.failf("two frames decode to the same %T", d.Body)
	}
	// the receive buffer is reused
	for i := range buf {
		buf[i] = byte(c.uint(8))
	}
	// and other frames decoded from it
	g := frame(append(hdrBytes(h), c.bytes(len(body))...))
	buf = append(buf[:0], g...)
	var d3 protocol.Message
	d3.Decode(buf)
	if d3.Body != nil {
		scribble(reflect.ValueOf(d3.Body), map[uintptr]bool{})
	}
	for _, x := range []protocol.Message{d, d2} {
		if got := valKey(lay, reflect.ValueOf(x.Body).Elem(), false); got != want {
			c.failf("body after the buffer was reused\n got  %s\n want %s", got, want)
		}
	}
}

// scribble overwrites every byte slice reachable through exported fields.
func scribble(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && !seen[v.Pointer()] {
			seen[v.Pointer()] = true
			scribble(v.Elem(), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scribble(v.Field(i), seen)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if e.Kind() == reflect.Uint8 && e.CanSet() {
				e.SetUint(0xee)
			} else {
				scribble(e, seen)
			}
		}
	}
}

var vknown = func() map[uint64]bool {
	m := map[uint64]bool{}
	for _, l := range vmsgs {
		m[uint64(l.MsgID)] = true
	}
	return m
}()

func drvNoBody(c *vc) {
	h := c.header()
	var body []byte
	what := ""
	lay := vmsgs[c.Intn(len(vmsgs))]
	switch c.Intn(4) {
	case 0:
		id := c.uint(16)
		for vknown[id] || isRaw(id) {
			id = uint64(c.Intn(65536))
		}
		h.MsgID = protocol.MsgID(id)
		body = c.flagBytes(c.Intn(40))
		h.Property = h.Property&0xf800 | protocol.Property(len(body))
		what = "unknown id"
	case 1:
		e := newEntity(lay)
		sv := reflect.ValueOf(e).Elem()
		c.gen(lay, sv, nil)
		body = wireOf(lay, sv)
		if len(body) > 1023 {
			body = body[:1023]
		}
		h.MsgID = protocol.MsgID(lay.MsgID)
		n := len(body)
		for n == len(body) {
			switch c.Intn(3) {
			case 0:
				n = c.Intn(1024)
			case 1:
				n = len(body) + 1
			default:
				n = len(body) - 1
			}
			n &= 0x3ff
		}
		h.Property = h.Property&0xf800 | protocol.Property(n)
		what = "wrong length"
	case 2:
		h.MsgID = protocol.MsgID(lay.MsgID)
		body = c.body(lay)
		if _, ok := parseKey(lay, append([]byte{}, body...)); ok || len(body) > 1023 || lay.Name == "T808_0x0801" {
			c.trivial()
			return
		}
		h.Property = h.Property&0xf800 | protocol.Property(len(body))
		what = "malformed"
	default: // marked as encrypted
		h.MsgID = rawIDs[c.Intn(len(rawIDs))]
		body = c.flagBytes(c.Intn(300))
		if c.flip(4) { // an empty body cannot be decrypted either
			body = nil
		}
		h.Property = h.Property&0xf800 | 1<<10 | protocol.Property(len(body))
		f := frame(append(hdrBytes(h), body...))
		c.key = string(f)
		c.note("encrypted without key or with the wrong key: Message.Decode(%x)", f)
		var d protocol.Message
		var err error
		if len(body) > 0 && c.flip(20) {
			err = d.Decode(f, vkey(1024))
		} else {
			err = d.Decode(f)
		}
		if err == nil {
			c.failf("a body that cannot be decrypted is accepted as %v", d.Body)
		}
		return
	}
	f := frame(append(hdrBytes(h), body...))
	c.key = string(f)
	c.note("%s: Message.Decode(%x)", what, f)
	var d protocol.Message
	if err := d.Decode(f); err != nil {
		c.failf("%s: rejected: %v", what, err)
		return
	}
	if d.Body != nil {
		c.failf("%s: body %T %+v", what, d.Body, d.Body)
	}
	wh := h
	if h.Packet != nil {
		wh.Property |= 1 << 13
	}
	if hdrStr(d.Header) != hdrStr(wh) {
		c.failf("%s: header\n got  %s\n want %s", what, hdrStr(d.Header), hdrStr(wh))
	}
}

// every id outside the registry
func drvUnknownIDs(c *vc) {
	c.key = fmt.Sprint(c.idx)
	c.note("all ids = %d mod 4", c.idx%4)
	for id := c.idx % 4; id < 65536; id += 4 {
		h := protocol.Header{MsgID: protocol.MsgID(id), IccID: 1}
		var d protocol.Message
		if err := d.Decode(frame(hdrBytes(h))); err != nil {
			c.failf("id %04x: %v", id, err)
			continue
		}
		if vknown[uint64(id)] || isRaw(uint64(id)) {
			if d.Body != nil && uint64(d.Body.MsgID()) != uint64(id) {
				c.failf("id %04x decodes to %T", id, d.Body)
			}
			continue
		}
		if d.Body != nil {
			c.failf("unknown id %04x decodes to %T", id, d.Body)
		}
	}
}
