package HARNESS

import (
	"bytes"
	"errors"
	"io"
	"reflect"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

func init() {
	vdrivers = append(vdrivers,
		vdriver{name: "stream", props: "C08", n: 30000, par: true, run: drvStream},
		vdriver{name: "streambig", props: "C08", n: 400, par: true, run: drvStreamBig},
		vdriver{name: "streamsend", props: "C08", n: 2000, par: true, run: drvStreamSend},
	)
}

var errDone = errors.New("end of the test stream")

type chunkRW struct {
	c      *vc
	s      []byte
	pos    int // delivered
	model  int // consumed by the frames delivered so far
	mode   int
	early  string
	failed error
}

func (r *chunkRW) Write(p []byte) (int, error) { return len(p), nil }
func (r *chunkRW) Read(p []byte) (int, error) {
	buf := r.s[r.model:r.pos]
	if len(buf) > 0 && r.early == "" {
		if buf[0] != 0x7e {
			r.early = "reads more input although the buffered bytes do not start with the flag byte"
		} else if bytes.IndexByte(buf[1:], 0x7e) >= 0 {
			r.early = "reads more input although a complete frame is buffered"
		}
	}
	if r.pos == len(r.s) {
		return 0, errDone
	}
	n := 0
	switch r.mode {
	case 0:
		n = 1
	case 1:
		n = len(r.s)
	case 2:
		n = 1 + r.c.Intn(7)
	case 3:
		n = []int{127, 128, 129, 64, 1}[r.c.Intn(5)]
	case 4:
		// up to just before, at or behind the next flag byte
		n = bytes.IndexByte(r.s[r.pos:], 0x7e) + r.c.Intn(3)
		if n < 1 {
			n = 1
		}
	case 5:
		if r.c.flip(3) {
			return 0, nil
		}
		n = 1 + r.c.Intn(200)
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.s)-r.pos {
		n = len(r.s) - r.pos
	}
	copy(p, r.s[r.pos:r.pos+n])
	r.pos += n
	if r.pos == len(r.s) && r.c.flip(2) {
		return n, errDone
	}
	return n, nil
}

var streamIDs = []uint16{0x0002, 0x0003, 0x0102, 0x0001, 0x0700, 0x0f0f, 0x7e7d, 0x0900}

func (c *vc) streamFrame(max int) []byte {
	id := streamIDs[c.Intn(len(streamIDs))]
	var body []byte
	switch id {
	case 0x0002, 0x0003:
	case 0x0001:
		body = c.bytes(5)
	default:
		body = c.bytes(c.size(max))
	}
	icc := c.Uint64() % 1000000000000
	var pkt *[2]uint16
	if c.flip(4) {
		pkt = &[2]uint16{uint16(c.uint(16)), uint16(c.uint(16))}
	}
	f := rawMsg(id, icc, uint16(c.uint(16)), body, pkt)
	switch c.Intn(8) {
	case 0: // damage a byte that is not a flag
		i := 1 + c.Intn(len(f)-2)
		f[i] ^= 1 << uint(c.Intn(8))
		if f[i] == 0x7e {
			f[i] = 0x55
		}
	case 1:
		f = []byte{0x7e, 0x7e}
	}
	return f
}

func streamCheck(c *vc, s []byte, mode int) {
	c.note("stream %x", s)
	c.note("read mode %d", mode)
	c.key = string(s) + string(rune(mode))
	rw := &chunkRW{c: c, s: s, mode: mode}
	codec, err := go808.Protocol{}.NewCodec(rw)
	if err != nil {
		c.failf("NewCodec: %v", err)
		return
	}
	var msgs, wants []protocol.Message
	for n := 0; ; n++ {
		rest := s[rw.model:]
		m, err := codec.Receive()
		if rw.early != "" {
			c.failf("receive %d: %s", n, rw.early)
			return
		}
		if len(rest) == 0 || rest[0] == 0x7e && bytes.IndexByte(rest[1:], 0x7e) < 0 {
			if err == nil {
				c.failf("receive %d delivers a message although the rest of the stream holds no complete frame: %+v", n, m)
			} else if err != errDone && err != io.EOF && err != io.ErrUnexpectedEOF {
				c.failf("receive %d at the end of the stream: error %v instead of the reader's", n, err)
			}
			break
		}
		if rest[0] != 0x7e {
			if err == nil {
				c.failf("receive %d: a stream that does not start with the flag byte is accepted: %+v", n, m)
			}
			break
		}
		e := 1 + bytes.IndexByte(rest[1:], 0x7e)
		var want protocol.Message
		werr := want.Decode(append([]byte{}, rest[:e+1]...))
		if (err == nil) != (werr == nil) {
			c.failf("receive %d: error %v, decoding the frame %x gives %v", n, err, rest[:e+1], werr)
			return
		}
		if err == nil {
			g, ok := m.(protocol.Message)
			if !ok {
				c.failf("receive %d: a %T", n, m)
				return
			}
			if !reflect.DeepEqual(g, want) {
				c.failf("receive %d: got %+v, the frame %x is %+v", n, g, rest[:e+1], want)
				return
			}
			msgs, wants = append(msgs, g), append(wants, want)
		}
		rw.model += e + 1
		if rw.pos < rw.model {
			c.failf("receive %d returned before its frame was read", n)
			return
		}
	}
	if !reflect.DeepEqual(msgs, wants) {
		c.failf("a message received earlier was changed by a later receive")
	}
}

func drvStream(c *vc) {
	var s []byte
	n := c.Intn(7)
	for i := 0; i < n; i++ {
		s = append(s, c.streamFrame(60)...)
	}
	switch c.Intn(6) {
	case 0: // incomplete frame at the end
		f := c.streamFrame(40)
		s = append(s, f[:c.Intn(len(f))]...)
	case 1: // bytes between frames
		k := c.bytes(1 + c.Intn(5))
		if k[0] == 0x7e {
			k[0] = 0x11
		}
		s = append(s, k...)
		s = append(s, c.streamFrame(20)...)
	case 2: // flag bytes in a row
		for i := c.Intn(4); i > 0; i-- {
			s = append(s, 0x7e)
		}
	}
	streamCheck(c, s, c.Intn(6))
}

func drvStreamBig(c *vc) {
	var s []byte
	for len(s) < 3000+c.Intn(60000) {
		s = append(s, c.streamFrame(1023)...)
	}
	streamCheck(c, s, 1+c.Intn(5))
}

// what the codec sends, another codec receives
func drvStreamSend(c *vc) {
	var out bytes.Buffer
	codec, err := go808.Protocol{}.NewCodec(struct {
		io.Reader
		io.Writer
	}{&bytes.Buffer{}, &out})
	if err != nil {
		c.failf("NewCodec: %v", err)
		return
	}
	var want []byte
	for i := 1 + c.Intn(4); i > 0; i-- {
		m := protocol.Message{Body: &protocol.T808_0x8001{ReplyMsgSerialNo: uint16(c.uint(16)), ReplyMsgID: protocol.MsgID(c.uint(16)), Result: protocol.Result(c.Intn(5))},
			Header: protocol.Header{IccID: c.Uint64() % 1000000000000, MsgSerialNo: uint16(c.uint(16))}}
		cp := m
		f, err := cp.Encode()
		if err != nil {
			c.failf("Encode: %v", err)
			return
		}
		want = append(want, f...)
		if err := codec.Send(m); err != nil {
			c.failf("Send: %v", err)
			return
		}
	}
	c.key = string(want)
	c.note("sent %x", want)
	if !bytes.Equal(out.Bytes(), want) {
		c.failf("written %x, encoded %x", out.Bytes(), want)
	}
	streamCheck(c, out.Bytes(), c.Intn(6))
}
