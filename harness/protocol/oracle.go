package HARNESS

import (
	"bytes"
	"compress/gzip"
	"crypto/rsa"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"io/ioutil"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"gitee.com/coco/go808/protocol"
	"gitee.com/coco/go808/protocol/extra"
	"github.com/shopspring/decimal"
	"github.com/sirupsen/logrus"
	"golang.org/x/text/encoding/simplifiedchinese"
)

func init() { logrus.SetOutput(ioutil.Discard) }

var vlay, vorder = func() (map[string]*Layout, []*Layout) {
	m, o, err := ParseLayouts(layoutsText)
	if err != nil {
		panic(err)
	}
	return m, o
}()

func gbEncode(s string) ([]byte, bool) {
	b, err := simplifiedchinese.GB18030.NewEncoder().Bytes([]byte(s))
	return b, err == nil
}
func gbDecode(b []byte) (string, bool) {
	s, err := simplifiedchinese.GB18030.NewDecoder().Bytes(b)
	return string(s), err == nil
}
func cutNUL(s string) string {
	if i := strings.IndexByte(s, 0); i >= 0 {
		return s[:i]
	}
	return s
}

// ---- generation ----------------------------------------------------------------

// text returns text without NUL whose encoding (GB18030 or as it is) has at most max bytes.
func (c *vc) text(max int, gb bool) string {
	want := c.size(max)
	if c.flip(3) && max > 0 {
		want = c.size(max)
		if want > 40 {
			want = 40
		}
	}
	var sb strings.Builder
	n := 0
	style := c.Intn(5)
	pool := []rune("0123456789AZaz京沪粤B測試漢字測αβ€éñ—“”，。①㈠々〇ㄅ丂䶮龥\U00020000\U0002A6D6\U0001F600")
	for n < want {
		var r rune
		switch style {
		case 0:
			r = rune('0' + c.Intn(10))
		case 1:
			r = rune(1 + c.Intn(127))
		case 2:
			r = pool[c.Intn(len(pool))]
		case 3:
			r = rune(0x4e00 + c.Intn(0x5000))
		default:
			r = rune(1 + c.Intn(0xffff))
			if r >= 0xd800 && r < 0xe000 || r == 0xfffd {
				r = 'x'
			}
		}
		if len(c.h.hints.Strs) > 0 && c.flip(20) {
			s := c.h.hints.Strs[c.Intn(len(c.h.hints.Strs))]
			if e, ok := gbEncode(s); ok && strings.IndexByte(s, 0) < 0 {
				d, _ := gbDecode(e)
				if d == s && gb && n+len(e) <= want {
					sb.WriteString(s)
					n += len(e)
					continue
				} else if !gb && n+len(s) <= want {
					sb.WriteString(s)
					n += len(s)
					continue
				}
			}
		}
		s := string(r)
		k := len(s)
		if gb {
			e, ok := gbEncode(s)
			d, ok2 := gbDecode(e)
			if !ok || !ok2 || d != s {
				r = 'y'
				s, e = "y", []byte("y")
			}
			k = len(e)
		}
		if n+k > want {
			s, k = "z", 1
		}
		sb.WriteString(s)
		n += k
	}
	return sb.String()
}
func (c *vc) time() time.Time {
	lo := time.Date(2000, 1, 1, 0, 0, 0, 0, time.Local).Unix()
	hi := time.Date(2099, 12, 31, 23, 59, 59, 0, time.Local).Unix()
	var s int64
	switch c.Intn(7) {
	case 0:
		s = lo + int64(c.Intn(3))
	case 1:
		s = hi - int64(c.Intn(3))
	case 5: // around the turn of a year, a month or a leap day
		t := time.Date(2000+c.Intn(99), []time.Month{13, 13, 3, time.Month(2 + c.Intn(12))}[c.Intn(4)], 1, 0, 0, 0, 0, time.Local)
		if c.flip(3) {
			t = time.Date(2004+4*c.Intn(24), []time.Month{13, 3}[c.Intn(2)], 1, 0, 0, 0, 0, time.Local)
		}
		s = t.Unix() - 2 + int64(c.Intn(4))
	case 2: // round numbers
		t := time.Date(2000+c.Intn(100), time.Month(1+c.Intn(12)), 1+c.Intn(28), []int{0, 10, 12, 20, 23}[c.Intn(5)], []int{0, 1, 59}[c.Intn(3)], []int{0, 9, 59}[c.Intn(3)], 0, time.Local)
		s = t.Unix()
	default:
		s = lo + c.Int63n(hi-lo+1)
	}
	t := time.Unix(s, 0)
	if c.flip(4) { // another zone, or a fraction of a second that the wire does not carry
		t = t.UTC()
	}
	return t
}
func (c *vc) micro() int64 {
	switch c.Intn(6) {
	case 0:
		return 0
	case 1:
		return int64(c.Intn(3))
	case 2:
		return int64(c.Intn(180)) * 1000000
	case 3:
		return int64(1<<32-1) - int64(c.Intn(2))
	case 4:
		return int64(c.uint(32))
	}
	return c.Int63n(180000001)
}
func (c *vc) dec(n int64) decimal.Decimal {
	e := int32(-6)
	if c.flip(2) {
		for n != 0 && n%10 == 0 {
			n /= 10
			e++
		}
	}
	return decimal.New(n, e)
}

type gctx struct {
	neg map[string]bool // flag/bit -> coordinates are <= 0
}

// gen makes an arbitrary representable value in sv (an addressable struct).
func (c *vc) gen(lay *Layout, sv reflect.Value, up *gctx) {
	g := &gctx{neg: map[string]bool{}}
	var prep func(ns []*Node)
	prep = func(ns []*Node) {
		for _, n := range ns {
			if n.Op == "geo" && !strings.HasPrefix(n.Flag, "^") {
				g.neg[fmt.Sprint(n.Flag, n.Bit)] = c.flip(2)
			}
			if n.Elem == "Vertex" {
				g.neg["Attribute6"], g.neg["Attribute7"] = c.flip(2), c.flip(2)
			}
			prep(n.Sub)
		}
	}
	prep(lay.Nodes)
	c.genNodes(lay.Nodes, sv, g, up)
	// a set hemisphere flag means that no coordinate of that axis is positive
	for k, neg := range g.neg {
		f := strings.TrimRight(k, "0123456789")
		bit, _ := strconv.Atoi(k[len(f):])
		fv := sv.FieldByName(f)
		if !neg {
			fv.SetUint(fv.Uint() &^ (1 << uint(bit)))
		}
	}
}
func setInt(f reflect.Value, x uint64) {
	switch f.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		f.SetInt(int64(x))
	default:
		f.SetUint(x)
	}
}
func getInt(f reflect.Value) uint64 {
	switch f.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return uint64(f.Int())
	}
	return f.Uint()
}
func opsz(op string) int { return map[string]int{"u8": 1, "u16": 2, "u32": 4}[op] }

func (c *vc) genNodes(nodes []*Node, sv reflect.Value, g, up *gctx) {
	for _, n := range nodes {
		var f reflect.Value
		if n.Field != "" && sv.Type() != reflect.TypeOf(protocol.Param{}) {
			f = sv.FieldByName(n.Field)
			if f.Kind() == reflect.Ptr && opsz(n.Op) > 0 {
				f.Set(reflect.New(f.Type().Elem()))
				f = f.Elem()
			}
		}
		switch n.Op {
		case "u8", "u16", "u32":
			if sv.Type() == reflect.TypeOf(protocol.Param{}) {
				sv.Addr().Interface().(*protocol.Param).SetBytes(uint32(c.uint(32)), c.bytes(c.size(255)))
				return
			}
			setInt(f, c.uint(8*opsz(n.Op)))
		case "str":
			f.SetString(c.text(n.N, false))
		case "str8":
			f.SetString(c.text(255, false))
		case "gb":
			f.SetString(c.text(n.N, true))
		case "gb8":
			f.SetString(c.text(255, true))
		case "gb16":
			f.SetString(c.text(2000, true))
		case "gbrest":
			f.SetString(c.text(1000, true))
		case "gbrest1":
			s := c.text(1000, true)
			if s == "" {
				s = "k"
			}
			f.SetString(s)
		case "rest":
			if k := c.size(1000); k > 0 || c.flip(2) {
				f.SetBytes(c.bytes(k))
			}
		case "gzip32":
			k := c.size(3000)
			if c.flip(4) {
				k = 256 * c.Intn(9)
			}
			f.SetBytes(c.bytes(k))
		case "raw":
			reflect.Copy(f, reflect.ValueOf(c.bytes(n.N)))
		case "bcd":
			k := c.size(2 * n.N)
			b := make([]byte, k)
			for i := range b {
				b[i] = byte('0' + c.Intn(10))
			}
			if k > 0 && b[0] == '0' {
				b[0] = '1' + byte(c.Intn(9))
			}
			f.SetString(string(b))
		case "time":
			f.Set(reflect.ValueOf(c.time()))
		case "date4":
			y := []int{1, 999, 1970, 1999, 2000, 2024, 2099, 9999}[c.Intn(8)]
			if c.flip(2) {
				y = 1970 + c.Intn(130)
			}
			t := time.Date(y, time.Month(1+c.Intn(12)), 1+c.Intn(28), 0, 0, 0, 0, time.Local)
			f.Set(reflect.ValueOf(t))
		case "dur5":
			d := time.Duration(c.Intn(24))*time.Hour + time.Duration(c.Intn(60))*time.Minute + time.Duration(c.Intn(60))*time.Second + time.Duration(c.Intn(1000))*time.Millisecond
			if c.flip(4) {
				d = []time.Duration{0, time.Millisecond, 9 * time.Second, 59 * time.Minute, 24*time.Hour - time.Millisecond, time.Hour - time.Millisecond}[c.Intn(6)]
			}
			f.SetInt(int64(d))
		case "geo":
			ctx := g
			fl := n.Flag
			if strings.HasPrefix(fl, "^") {
				ctx, fl = up, fl[1:]
			}
			m := c.micro()
			if ctx.neg[fmt.Sprint(fl, n.Bit)] {
				m = -m
			}
			f.Set(reflect.ValueOf(c.dec(m)))
		case "if":
			fl := sv.FieldByName(n.Flag)
			if fl.Uint()>>uint(n.Bit)&1 == 1 {
				c.genNodes(n.Sub, sv, g, up)
			}
		case "opt":
			fl := sv.FieldByName(n.Flag)
			if c.flip(2) {
				fl.SetUint(fl.Uint() ^ 1<<uint(n.Bit))
			}
			if c.flip(2) {
				c.genNodes(n.Sub, sv, g, up)
			}
		case "list8", "list16", "listrest", "optlist8", "items":
			max := 255
			if n.Op == "list16" || n.Op == "items" || n.Op == "listrest" {
				max = 300
				if c.flip(60) && opsz(n.Elem) > 0 {
					max = 65535
				}
			}
			k := c.size(max)
			if k > 12 && !c.flip(6) {
				k = c.Intn(12)
			}
			if k == 0 && c.flip(2) {
				break
			}
			if max > 300 {
				k = 65000 + c.Intn(536)
			}
			l := reflect.MakeSlice(f.Type(), k, k+c.Intn(3))
			for i := 0; i < k; i++ {
				c.genElem(n.Elem, l.Index(i), g)
			}
			f.Set(l)
		case "count16", "packet":
			if n.Op == "packet" && !c.flip(3) {
				f.Set(reflect.ValueOf(bytes.NewReader(c.bytes(c.size(500)))))
			}
		case "embed", "embed28":
			c.gen(vlay["T808_0x0200"], f, nil)
			if n.Op == "embed28" {
				f.FieldByName("Extras").Set(reflect.Zero(f.FieldByName("Extras").Type()))
			}
		case "extras":
			k := c.Intn(4)
			if c.flip(20) {
				k = c.size(60)
			}
			var xs []extra.Entity
			for i := 0; i < k; i++ {
				xs = append(xs, c.extra())
			}
			f.Set(reflect.ValueOf(xs))
		case "rsakey":
			b := c.bytes(128)
			b[0] = byte(1 + c.Intn(255))
			f.Set(reflect.ValueOf(&rsa.PublicKey{N: new(big.Int).SetBytes(b), E: int(c.uint(31))}))
		default:
			panic("harness: node " + n.Op)
		}
	}
}
func (c *vc) genElem(elem string, v reflect.Value, g *gctx) {
	switch {
	case opsz(elem) > 0:
		setInt(v, c.uint(8*opsz(elem)))
	case strings.HasPrefix(elem, "embed16:"):
		c.gen(vlay["T808_0x0200"], v, nil)
	case strings.HasPrefix(elem, "*"):
		v.Set(reflect.New(v.Type().Elem()))
		c.gen(vlay[elem[1:]], v.Elem(), g)
	default:
		c.gen(vlay[elem], v, g)
	}
}

// ---- extras --------------------------------------------------------------------

var extraIDs = []byte{0x01, 0x02, 0x03, 0x04, 0x11, 0x12, 0x13, 0x25, 0x2a, 0x2b, 0x30, 0x31}
var extraWidth = map[byte]int{0x01: 4, 0x02: 2, 0x03: 2, 0x04: 2, 0x12: 6, 0x13: 7, 0x25: 4, 0x2a: 2, 0x2b: 4, 0x30: 1, 0x31: 1}

func extraKnown(id byte) bool { return bytes.IndexByte(extraIDs, id) >= 0 }

// extraData returns the data of an item of a known type.
func (c *vc) extraData(id byte) []byte {
	if id == 0x11 {
		if c.flip(3) {
			return []byte{0}
		}
		b := c.bytes(5)
		if b[0] == 0 {
			b[0] = byte(1 + c.Intn(255))
		}
		return b
	}
	return c.bytes(extraWidth[id])
}
func (c *vc) extra() extra.Entity {
	id := extraIDs[c.Intn(len(extraIDs))]
	return extraOf(id, c.extraData(id))
}

// extraValue is the value that item data stands for; ok tells whether it is exactly one value of the type.
func extraValue(id byte, d []byte) (v interface{}, ok bool) {
	if id == 0x11 {
		if len(d) == 1 && d[0] == 0 {
			return extra.Extra_0x11_Value{Type: 0}, true
		}
		if len(d) == 5 && d[0] != 0 {
			a := binary.BigEndian.Uint32(d[1:])
			return extra.Extra_0x11_Value{Type: d[0], AreaID: &a}, true
		}
		return nil, false
	}
	w, known := extraWidth[id]
	if !known || len(d) != w {
		return nil, false
	}
	switch id {
	case 0x12:
		return extra.Extra_0x12_Value{Type: d[0], AreaID: binary.BigEndian.Uint32(d[1:]), Direction: d[5]}, true
	case 0x13:
		return extra.Extra_0x13_Value{RoadID: binary.BigEndian.Uint32(d), Duration: binary.BigEndian.Uint16(d[4:]), Result: d[6]}, true
	}
	switch w {
	case 1:
		return d[0], true
	case 2:
		return binary.BigEndian.Uint16(d), true
	}
	return binary.BigEndian.Uint32(d), true
}
func extraOf(id byte, d []byte) extra.Entity {
	v, _ := extraValue(id, d)
	switch id {
	case 0x01:
		return extra.NewExtra_0x01(v.(uint32))
	case 0x02:
		return extra.NewExtra_0x02(v.(uint16))
	case 0x03:
		return extra.NewExtra_0x03(v.(uint16))
	case 0x04:
		return extra.NewExtra_0x04(v.(uint16))
	case 0x11:
		return extra.NewExtra_0x11(v.(extra.Extra_0x11_Value))
	case 0x12:
		return extra.NewExtra_0x12(v.(extra.Extra_0x12_Value))
	case 0x13:
		return extra.NewExtra_0x13(v.(extra.Extra_0x13_Value))
	case 0x25:
		return extra.NewExtra_0x25(v.(uint32))
	case 0x2a:
		return extra.NewExtra_0x2A(v.(uint16))
	case 0x2b:
		return extra.NewExtra_0x2B(v.(uint32))
	case 0x30:
		return extra.NewExtra_0x30(v.(byte))
	}
	return extra.NewExtra_0x31(v.(byte))
}

// xitem is the oracle's view of one item; extraKey renders an entity the same way.
func extraKey(id byte, data []byte, v interface{}) string {
	switch x := v.(type) {
	case extra.Extra_0x11_Value:
		if x.AreaID != nil {
			return fmt.Sprintf("%02x:%x:0x11{%d,%d}", id, data, x.Type, *x.AreaID)
		}
		return fmt.Sprintf("%02x:%x:0x11{%d,-}", id, data, x.Type)
	}
	return fmt.Sprintf("%02x:%x:%T%v", id, data, v, v)
}

// ---- wire image ------------------------------------------------------------------

func be(n int, v uint64) []byte {
	b := make([]byte, n)
	for i := range b {
		b[n-1-i] = byte(v >> uint(8*i))
	}
	return b
}
func bcdBytes(digits string, n int) []byte {
	for len(digits) < 2*n {
		digits = "0" + digits
	}
	b, err := hex.DecodeString(digits)
	if err != nil {
		panic(err)
	}
	return b
}
func pad(b []byte, n int) []byte {
	out := make([]byte, n)
	copy(out, b)
	return out
}
func micro(v reflect.Value) int64 {
	return v.Interface().(decimal.Decimal).Mul(decimal.New(1000000, 0)).IntPart()
}

// flaggedUint is the value of an integer field with the hemisphere bits its coordinates require.
func flaggedUint(lay *Layout, sv reflect.Value, field string) uint64 {
	x := getInt(sv.FieldByName(field))
	for _, n := range lay.Nodes {
		if n.Op == "geo" && n.Flag == field && micro(sv.FieldByName(n.Field)) < 0 {
			x |= 1 << uint(n.Bit)
		}
		if n.Op == "opt" && n.Flag == field {
			x &^= 1 << uint(n.Bit)
			if !sv.FieldByName(n.Sub[0].Field).IsNil() {
				x |= 1 << uint(n.Bit)
			}
		}
		if n.Elem == "Vertex" && field == "Attribute" {
			l := sv.FieldByName(n.Field)
			for i := 0; i < l.Len(); i++ {
				if micro(l.Index(i).FieldByName("Lat")) < 0 {
					x |= 1 << 6
				}
				if micro(l.Index(i).FieldByName("Lng")) < 0 {
					x |= 1 << 7
				}
			}
		}
	}
	return x
}

func wireOf(lay *Layout, sv reflect.Value) []byte { return wireNodes(lay, lay.Nodes, sv) }
func wireNodes(lay *Layout, nodes []*Node, sv reflect.Value) []byte {
	var out []byte
	put := func(b ...byte) { out = append(out, b...) }
	if sv.Type() == reflect.TypeOf(protocol.Param{}) {
		p := sv.Addr().Interface().(*protocol.Param)
		d, _ := p.GetBytes()
		put(be(4, uint64(p.ID()))...)
		put(byte(len(d)))
		put(d...)
		return out
	}
	for _, n := range nodes {
		var f reflect.Value
		if n.Field != "" {
			f = sv.FieldByName(n.Field)
			if f.Kind() == reflect.Ptr && opsz(n.Op) > 0 {
				put(be(opsz(n.Op), getInt(f.Elem()))...)
				continue
			}
		}
		elems := func() {
			for i := 0; i < f.Len(); i++ {
				e := f.Index(i)
				switch {
				case opsz(n.Elem) > 0:
					put(be(opsz(n.Elem), getInt(e))...)
				case strings.HasPrefix(n.Elem, "embed16:"):
					w := wireOf(vlay["T808_0x0200"], e)
					put(be(2, uint64(len(w)))...)
					put(w...)
				case strings.HasPrefix(n.Elem, "*"):
					put(wireOf(vlay[n.Elem[1:]], e.Elem())...)
				default:
					put(wireOf(vlay[n.Elem], e)...)
				}
			}
		}
		switch n.Op {
		case "u8", "u16", "u32":
			put(be(opsz(n.Op), flaggedUint(lay, sv, n.Field))...)
		case "str":
			put(pad([]byte(f.String()), n.N)...)
		case "str8":
			put(byte(f.Len()))
			put([]byte(f.String())...)
		case "gb", "gb8", "gb16", "gbrest", "gbrest1":
			e, ok := gbEncode(f.String())
			if !ok {
				panic("harness: not representable")
			}
			switch n.Op {
			case "gb":
				e = pad(e, n.N)
			case "gb8":
				put(byte(len(e)))
			case "gb16":
				put(be(2, uint64(len(e)))...)
			}
			put(e...)
		case "rest":
			put(f.Bytes()...)
		case "raw":
			b := make([]byte, n.N)
			reflect.Copy(reflect.ValueOf(b), f)
			put(b...)
		case "bcd":
			put(bcdBytes(f.String(), n.N)...)
		case "time":
			put(bcdBytes(f.Interface().(time.Time).Local().Format("060102150405"), 6)...)
		case "date4":
			put(bcdBytes(f.Interface().(time.Time).Format("20060102"), 4)...)
		case "dur5":
			ms := f.Int() / 1e6
			put(bcdBytes(fmt.Sprintf("%02d%02d%02d%04d", ms/3600000, ms/60000%60, ms/1000%60, ms%1000), 5)...)
		case "geo":
			m := micro(f)
			if m < 0 {
				m = -m
			}
			put(be(4, uint64(m))...)
		case "if":
			if getInt(sv.FieldByName(n.Flag))>>uint(n.Bit)&1 == 1 {
				put(wireNodes(lay, n.Sub, sv)...)
			}
		case "opt":
			if !sv.FieldByName(n.Sub[0].Field).IsNil() {
				put(wireNodes(lay, n.Sub, sv)...)
			}
		case "list8":
			put(byte(f.Len()))
			elems()
		case "list16":
			put(be(2, uint64(f.Len()))...)
			elems()
		case "optlist8":
			if f.Len() > 0 {
				put(byte(f.Len()))
				elems()
			}
		case "count16":
			put(be(2, uint64(f.Len()))...)
		case "items", "listrest":
			elems()
		case "embed", "embed28":
			put(wireOf(vlay["T808_0x0200"], f)...)
		case "extras":
			for i := 0; i < f.Len(); i++ {
				x := f.Index(i).Interface().(extra.Entity)
				put(x.ID(), byte(len(x.Data())))
				put(x.Data()...)
			}
		case "packet":
			if !f.IsNil() {
				r := f.Interface().(*bytes.Reader)
				d, _ := ioutil.ReadAll(r)
				r.Seek(0, io.SeekStart)
				put(d...)
			}
		case "gzip32":
			var b bytes.Buffer
			w := gzip.NewWriter(&b)
			w.Write(f.Bytes())
			w.Close()
			put(be(4, uint64(b.Len()))...)
			put(b.Bytes()...)
		case "rsakey":
			k := f.Interface().(*rsa.PublicKey)
			put(be(4, uint64(k.E))...)
			put(pad(k.N.Bytes(), 128)...)
		default:
			panic("harness: wire " + n.Op)
		}
	}
	return out
}

// ---- parser ------------------------------------------------------------------------
// parseKey renders the value the layout assigns to a byte string; valKey renders a Go value
// in the same notation, so that the two can be compared and shown.

type vparse struct {
	b      []byte
	ok     bool
	counts map[string]int
	flags  map[string]uint64 // integer fields read so far
	up     map[string]uint64
}

func (p *vparse) take(n int) []byte {
	if !p.ok || n > len(p.b) {
		p.ok = false
		return make([]byte, 0)
	}
	r := p.b[:n]
	p.b = p.b[n:]
	return r
}
func (p *vparse) num(n int) uint64 {
	v := uint64(0)
	for _, x := range p.take(n) {
		v = v<<8 | uint64(x)
	}
	return v
}
func unBCD(b []byte) string { return fmt.Sprintf("%x", b) }

func timeKey(t time.Time) string { return "@" + strconv.FormatInt(t.Unix(), 10) }
func decKey(n int64) string {
	return decimal.New(n, -6).String()
}

func parseKey(lay *Layout, b []byte) (string, bool) {
	p := &vparse{b: b, ok: true}
	s := p.parse(lay)
	return s, p.ok
}
func (p *vparse) parse(lay *Layout) string {
	p.counts, p.flags = map[string]int{}, map[string]uint64{}
	out := map[string]string{}
	geos := map[string]int64{}
	p.nodes(lay.Nodes, out, geos)
	for _, n := range lay.Nodes {
		if n.Op != "geo" {
			continue
		}
		fl := p.flags[n.Flag]
		if strings.HasPrefix(n.Flag, "^") {
			fl = p.up[n.Flag[1:]]
		}
		m := geos[n.Field]
		if fl>>uint(n.Bit)&1 == 1 {
			m = -m
		}
		out[n.Field] = decKey(m)
	}
	return joinKey(lay, out)
}
func joinKey(lay *Layout, out map[string]string) string {
	var parts []string
	done := map[string]bool{}
	var rec func(ns []*Node)
	rec = func(ns []*Node) {
		for _, n := range ns {
			if n.Field != "" && n.Op != "count16" && !done[n.Field] {
				done[n.Field] = true
				v, ok := out[n.Field]
				if !ok {
					v = "-"
				}
				parts = append(parts, n.Field+"="+v)
			}
			rec(n.Sub)
		}
	}
	rec(lay.Nodes)
	return "{" + strings.Join(parts, " ") + "}"
}
func (p *vparse) nodes(nodes []*Node, out map[string]string, geos map[string]int64) {
	gb := func(b []byte) string {
		s, ok := gbDecode(b)
		if !ok {
			p.ok = false
		}
		return fmt.Sprintf("%q", cutNUL(s))
	}
	for _, n := range nodes {
		if !p.ok {
			return
		}
		list := func(k int) {
			var es []string
			for i := 0; i < k || k < 0 && len(p.b) > 0; i++ {
				q := &vparse{b: p.b, ok: true, up: p.flags}
				switch {
				case opsz(n.Elem) > 0:
					es = append(es, fmt.Sprint(q.num(opsz(n.Elem))))
				case strings.HasPrefix(n.Elem, "embed16:"):
					d := q.take(int(q.num(2)))
					s, ok := parseKey(vlay["T808_0x0200"], d)
					q.ok = q.ok && ok
					es = append(es, s)
				default:
					es = append(es, q.parse(vlay[strings.TrimPrefix(n.Elem, "*")]))
				}
				if !q.ok {
					p.ok = false
					return
				}
				p.b = q.b
			}
			out[n.Field] = "[" + strings.Join(es, " ") + "]"
		}
		switch n.Op {
		case "u8", "u16", "u32":
			v := p.num(opsz(n.Op))
			p.flags[n.Field] = v
			out[n.Field] = fmt.Sprint(v)
		case "str":
			out[n.Field] = fmt.Sprintf("%q", cutNUL(string(p.take(n.N))))
		case "str8":
			out[n.Field] = fmt.Sprintf("%q", cutNUL(string(p.take(int(p.num(1))))))
		case "gb":
			out[n.Field] = gb(p.take(n.N))
		case "gb8":
			out[n.Field] = gb(p.take(int(p.num(1))))
		case "gb16":
			out[n.Field] = gb(p.take(int(p.num(2))))
		case "gbrest", "gbrest1":
			if n.Op == "gbrest1" && len(p.b) == 0 {
				p.ok = false
				return
			}
			out[n.Field] = gb(p.take(len(p.b)))
		case "rest":
			out[n.Field] = fmt.Sprintf("%x", p.take(len(p.b)))
		case "bytes8":
			out[n.Field] = fmt.Sprintf("%x", p.take(int(p.num(1))))
		case "raw":
			out[n.Field] = fmt.Sprintf("%x", p.take(n.N))
		case "bcd":
			b := p.take(n.N)
			var s []byte
			for _, x := range b {
				s = append(s, '0'+x>>4, '0'+x&15)
			}
			out[n.Field] = fmt.Sprintf("%q", strings.TrimLeft(string(s), "0"))
		case "time":
			t, err := time.ParseInLocation("20060102150405", "20"+unBCD(p.take(6)), time.Local)
			if err != nil {
				p.ok = false
				return
			}
			out[n.Field] = timeKey(t)
		case "date4":
			t, err := time.ParseInLocation("20060102", unBCD(p.take(4)), time.Local)
			if err != nil {
				p.ok = false
				return
			}
			out[n.Field] = timeKey(t)
		case "dur5":
			s := unBCD(p.take(5))
			if !p.ok || strings.Trim(s, "0123456789") != "" {
				p.ok = false
				return
			}
			at := func(i, j int) time.Duration { x, _ := strconv.Atoi(s[i:j]); return time.Duration(x) }
			out[n.Field] = fmt.Sprint(int64(at(0, 2)*time.Hour + at(2, 4)*time.Minute + at(4, 6)*time.Second + at(6, 10)*time.Millisecond))
		case "geo":
			geos[n.Field] = int64(p.num(4))
		case "if", "opt":
			if p.flags[n.Flag]>>uint(n.Bit)&1 == 1 {
				p.nodes(n.Sub, out, geos)
			}
		case "count16":
			p.counts[n.Field] = int(p.num(2))
		case "items":
			list(p.counts[n.Field])
		case "list8":
			list(int(p.num(1)))
		case "list16":
			list(int(p.num(2)))
		case "optlist8":
			if len(p.b) == 0 {
				out[n.Field] = "[]"
			} else {
				list(int(p.num(1)))
			}
		case "listrest":
			list(-1)
		case "embed", "embed28":
			k := len(p.b)
			if n.Op == "embed28" {
				k = 28
			}
			s, ok := parseKey(vlay["T808_0x0200"], p.take(k))
			p.ok = p.ok && ok
			out[n.Field] = s
		case "extras":
			var es []string
			for len(p.b) >= 2 {
				id := p.b[0]
				k := int(p.b[1])
				p.b = p.b[2:]
				d := p.take(k)
				if !p.ok {
					return
				}
				if !extraKnown(id) {
					continue
				}
				v, ok := extraValue(id, d)
				if !ok {
					p.ok = false
					return
				}
				es = append(es, extraKey(id, d, v))
			}
			out[n.Field] = "[" + strings.Join(es, " ") + "]"
		case "packet":
			out[n.Field] = "-"
		case "gzip32":
			d := p.take(int(p.num(4)))
			if !p.ok {
				return
			}
			r, err := gzip.NewReader(bytes.NewReader(d))
			if err != nil {
				p.ok = false
				return
			}
			b, err := ioutil.ReadAll(r)
			if err != nil {
				p.ok = false
				return
			}
			out[n.Field] = fmt.Sprintf("%x", b)
		case "rsakey":
			e := p.num(4)
			out[n.Field] = fmt.Sprintf("%d/%x", e, new(big.Int).SetBytes(p.take(128)))
		default:
			panic("harness: parse " + n.Op)
		}
	}
}

// valKey renders a Go value.
func valKey(lay *Layout, sv reflect.Value, flag bool) string {
	out := map[string]string{}
	if sv.Type() == reflect.TypeOf(protocol.Param{}) {
		p := sv.Addr().Interface().(*protocol.Param)
		d, _ := p.GetBytes()
		out["id"], out["serialized"] = fmt.Sprint(p.ID()), fmt.Sprintf("%x", d)
		return joinKey(lay, out)
	}
	valNodes(lay, lay.Nodes, sv, out, flag, true)
	return joinKey(lay, out)
}
func valNodes(lay *Layout, nodes []*Node, sv reflect.Value, out map[string]string, flag, on bool) {
	for _, n := range nodes {
		var f reflect.Value
		if n.Field != "" {
			f = sv.FieldByName(n.Field)
			if f.Kind() == reflect.Ptr && opsz(n.Op) > 0 {
				if !f.IsNil() {
					out[n.Field] = fmt.Sprint(getInt(f.Elem()))
				}
				continue
			}
		}
		switch n.Op {
		case "u8", "u16", "u32":
			x := getInt(f)
			if flag {
				x = flaggedUint(lay, sv, n.Field)
			}
			if on || x != 0 {
				out[n.Field] = fmt.Sprint(x)
			}
		case "str", "str8", "gb", "gb8", "gb16", "gbrest", "gbrest1", "bcd":
			out[n.Field] = fmt.Sprintf("%q", f.String())
		case "rest", "gzip32":
			out[n.Field] = fmt.Sprintf("%x", f.Bytes())
		case "raw":
			b := make([]byte, n.N)
			reflect.Copy(reflect.ValueOf(b), f)
			out[n.Field] = fmt.Sprintf("%x", b)
		case "time", "date4":
			t := f.Interface().(time.Time)
			if on || !t.IsZero() {
				out[n.Field] = timeKey(t)
			}
		case "dur5":
			out[n.Field] = fmt.Sprint(f.Int())
		case "geo":
			d := f.Interface().(decimal.Decimal)
			out[n.Field] = d.String()
		case "if":
			valNodes(lay, n.Sub, sv, out, flag, getInt(sv.FieldByName(n.Flag))>>uint(n.Bit)&1 == 1)
		case "opt":
			valNodes(lay, n.Sub, sv, out, flag, true)
		case "list8", "list16", "listrest", "optlist8", "items":
			var es []string
			for i := 0; i < f.Len(); i++ {
				e := f.Index(i)
				switch {
				case opsz(n.Elem) > 0:
					es = append(es, fmt.Sprint(getInt(e)))
				case strings.HasPrefix(n.Elem, "embed16:"):
					es = append(es, valKey(vlay["T808_0x0200"], e, flag))
				case strings.HasPrefix(n.Elem, "*"):
					if e.IsNil() {
						es = append(es, "nil")
					} else {
						es = append(es, valKey(vlay[n.Elem[1:]], e.Elem(), flag))
					}
				default:
					es = append(es, valKey(vlay[n.Elem], e, flag))
				}
			}
			out[n.Field] = "[" + strings.Join(es, " ") + "]"
		case "embed", "embed28":
			out[n.Field] = valKey(vlay["T808_0x0200"], f, flag)
		case "extras":
			var es []string
			for i := 0; i < f.Len(); i++ {
				if f.Index(i).IsNil() {
					es = append(es, "nil")
					continue
				}
				x := f.Index(i).Interface().(extra.Entity)
				es = append(es, extraKey(x.ID(), x.Data(), x.Value()))
			}
			out[n.Field] = "[" + strings.Join(es, " ") + "]"
		case "rsakey":
			if f.IsNil() {
				out[n.Field] = "nil"
			} else {
				k := f.Interface().(*rsa.PublicKey)
				out[n.Field] = fmt.Sprintf("%d/%x", k.E, k.N)
			}
		case "packet":
			if !f.IsNil() {
				out[n.Field] = "packet"
			}
		}
	}
}
