package HARNESS

import (
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	log "github.com/sirupsen/logrus"
)

func init() {
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)
	if devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = devnull // stack traces of panics the code recovers from
	}
}

func esc(raw []byte) []byte {
	var out []byte
	for _, b := range raw {
		switch b {
		case 0x7e:
			out = append(out, 0x7d, 2)
		case 0x7d:
			out = append(out, 0x7d, 1)
		default:
			out = append(out, b)
		}
	}
	return out
}
func xor(b []byte) byte {
	x := byte(0)
	for _, c := range b {
		x ^= c
	}
	return x
}
func frame(raw []byte) []byte {
	return append(append([]byte{0x7e}, esc(append(append([]byte{}, raw...), xor(raw)))...), 0x7e)
}
func unescape(in []byte) []byte {
	var out []byte
	for i := 0; i < len(in); i++ {
		if in[i] == 0x7d && i+1 < len(in) {
			i++
			out = append(out, 0x7c+in[i])
			continue
		}
		out = append(out, in[i])
	}
	return out
}

// hdr: header bytes written independently of the code under test.
func hdr(id, attr uint16, icc uint64, serial uint16, pkt *[2]uint16) []byte {
	b := []byte{byte(id >> 8), byte(id), byte(attr >> 8), byte(attr)}
	s := fmt.Sprintf("%012d", icc)
	for i := 0; i < 12; i += 2 {
		b = append(b, (s[i]-'0')<<4|(s[i+1]-'0'))
	}
	b = append(b, byte(serial>>8), byte(serial))
	if pkt != nil {
		b = append(b, byte(pkt[0]>>8), byte(pkt[0]), byte(pkt[1]>>8), byte(pkt[1]))
	}
	return b
}

// rawMsg: the frame of a message with the given body bytes.
func rawMsg(id uint16, icc uint64, serial uint16, body []byte, pkt *[2]uint16) []byte {
	attr := uint16(len(body))
	if pkt != nil {
		attr |= 1 << 13
	}
	return frame(append(hdr(id, attr, icc, serial, pkt), body...))
}

func bodyOf(e protocol.Entity) []byte {
	b, err := e.Encode()
	if err != nil {
		panic(err)
	}
	return b
}

// ---- a server on the loopback network ----------------------------------------

type srv struct {
	*go808.Server
	port int
}

var portMu sync.Mutex

func startServer(c *vc, o go808.Options) *srv {
	s, err := go808.NewServer(o)
	if err != nil {
		c.failf("NewServer: %v", err)
		return nil
	}
	for try := 0; try < 5; try++ {
		portMu.Lock()
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			portMu.Unlock()
			c.inconclusive("no loopback network: %v", err)
			return nil
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		ch := make(chan error, 1)
		go func() { ch <- s.Run("tcp", port) }()
		ok := false
		for i := 0; i < 200 && !ok; i++ {
			select {
			case <-ch:
				i = 1000
				continue
			default:
			}
			if k, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
				k.Close()
				ok = true
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		portMu.Unlock()
		if ok {
			time.Sleep(20 * time.Millisecond)
			return &srv{s, port}
		}
	}
	c.inconclusive("server did not come up")
	return nil
}

type got struct {
	id, attr, serial uint16
	icc              uint64
	body             []byte
}

type client struct {
	net.Conn
	mu     sync.Mutex
	frames []got
	bad    []string
	closed bool
	sig    chan struct{}
}

func (s *srv) dial(c *vc) *client {
	conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", s.port))
	if err != nil {
		c.inconclusive("dial: %v", err)
		return nil
	}
	k := &client{Conn: conn, sig: make(chan struct{}, 1)}
	go k.read()
	return k
}
func (k *client) read() {
	var buf []byte
	tmp := make([]byte, 4096)
	for {
		n, err := k.Conn.Read(tmp)
		buf = append(buf, tmp[:n]...)
		k.mu.Lock()
		for len(buf) > 1 {
			e := -1
			for i := 1; i < len(buf); i++ {
				if buf[i] == 0x7e {
					e = i
					break
				}
			}
			if e < 0 {
				break
			}
			k.add(buf[:e+1])
			buf = buf[e+1:]
		}
		if err != nil {
			k.closed = true
		}
		k.mu.Unlock()
		select {
		case k.sig <- struct{}{}:
		default:
		}
		if err != nil {
			return
		}
	}
}
func (k *client) add(f []byte) {
	raw := unescape(f[1 : len(f)-1])
	if f[0] != 0x7e || len(raw) < 13 || xor(raw) != 0 {
		k.bad = append(k.bad, fmt.Sprintf("%x", f))
		return
	}
	raw = raw[:len(raw)-1]
	g := got{id: uint16(raw[0])<<8 | uint16(raw[1]), attr: uint16(raw[2])<<8 | uint16(raw[3]), serial: uint16(raw[10])<<8 | uint16(raw[11])}
	for _, b := range raw[4:10] {
		g.icc = g.icc*100 + uint64(b>>4)*10 + uint64(b&15)
	}
	h := 12
	if g.attr&(1<<13) != 0 {
		h = 16
	}
	g.body = append([]byte{}, raw[h:]...)
	k.frames = append(k.frames, g)
}

// wait until cond holds for the frames received so far, or the time is over.
func (k *client) wait(d time.Duration, cond func(fs []got, closed bool) bool) bool {
	end := time.Now().Add(d)
	for {
		k.mu.Lock()
		ok := cond(k.frames, k.closed)
		k.mu.Unlock()
		if ok {
			return true
		}
		left := time.Until(end)
		if left <= 0 {
			return false
		}
		if left > 20*time.Millisecond {
			left = 20 * time.Millisecond
		}
		select {
		case <-k.sig:
		case <-time.After(left):
		}
	}
}
func (k *client) all() []got {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]got{}, k.frames...)
}

// eventually polls a condition.
func eventually(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(5 * time.Millisecond)
	}
}

const longWait = 8 * time.Second

// sessionOf connects and returns the server's session of that connection.
func (s *srv) sessionOf(c *vc, icc uint64) (*client, *go808.Session) {
	ch := make(chan *go808.Session, 1)
	s.AddHandler(protocol.MsgT808_0x0003, func(ss *go808.Session, m *protocol.Message) {
		select {
		case ch <- ss:
		default:
		}
	})
	k := s.dial(c)
	if k == nil {
		return nil, nil
	}
	k.Write(rawMsg(0x0003, icc, 1, nil, nil))
	select {
	case ss := <-ch:
		return k, ss
	case <-time.After(longWait):
		c.failf("the handler of 0x0003 is not called for a valid message of a new connection")
		k.Close()
		return nil, nil
	}
}

// paced makes the server send something and waits until it has arrived: the link
// closes a session whose queue of 24 messages is full.
func (k *client) paced(send func()) {
	n := len(k.all())
	send()
	k.wait(longWait, func(fs []got, closed bool) bool { return len(fs) > n || closed })
}

// unknownID is not in the registry.
const unknownID = 0x0f0f

// sync sends a message with an unknown id and waits for its reply: everything
// sent before has been processed.
func (k *client) sync(c *vc, icc uint64, serial uint16) bool {
	k.Write(rawMsg(unknownID, icc, serial, nil, nil))
	ok := k.wait(longWait, func(fs []got, closed bool) bool {
		for _, f := range fs {
			if f.id == 0x8001 && len(f.body) == 5 && f.body[0] == byte(serial>>8) && f.body[1] == byte(serial) && f.body[2] == 0x0f && f.body[3] == 0x0f {
				return true
			}
		}
		return closed
	})
	k.mu.Lock()
	closed := k.closed
	k.mu.Unlock()
	if !ok || closed {
		c.failf("no reply 'unsupported' to a message with an unknown id (serial %d), connection closed: %v", serial, closed)
		return false
	}
	return true
}
