package HARNESS

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

func init() {
	vdrivers = append(vdrivers,
		vdriver{name: "serial", props: "C15", n: 40, slow: true, par: true, run: drvSerial},
		vdriver{name: "requests", props: "C16", n: 120, slow: true, par: true, run: drvRequests},
		vdriver{name: "earlyresponse", props: "C16", n: 12, slow: true, par: true, run: drvEarly},
	)
}

// ent is a message body with a chosen id.
type ent struct {
	id   uint16
	body []byte
	hook func()
}

func (e *ent) MsgID() protocol.MsgID {
	if e.hook != nil {
		e.hook()
	}
	return protocol.MsgID(e.id)
}
func (e *ent) Encode() ([]byte, error)      { return append([]byte{}, e.body...), nil }
func (e *ent) Decode(b []byte) (int, error) { return len(b), nil }

// one server for all cases of a run; sessions are told apart by terminal number
var (
	sharedOnce sync.Once
	sharedSrv  *srv
	sharedErr  string
	sharedMap  sync.Map // icc -> chan *go808.Session
	nextIcc    uint64   = 13800000000
)

func shared(c *vc) *srv {
	sharedOnce.Do(func() {
		sharedSrv = startServer(c, go808.Options{Keepalive: 600})
		if sharedSrv == nil {
			sharedErr = "server not started"
			return
		}
		sharedSrv.AddHandler(protocol.MsgT808_0x0003, func(ss *go808.Session, m *protocol.Message) {
			if ch, ok := sharedMap.Load(m.Header.IccID); ok {
				select {
				case ch.(chan *go808.Session) <- ss:
				default:
				}
			}
		})
	})
	if sharedSrv == nil {
		c.inconclusive("%s", sharedErr)
	}
	return sharedSrv
}

// sharedSession connects a terminal to the shared server.
func sharedSession(c *vc) (*client, *go808.Session, uint64) {
	s := shared(c)
	if s == nil {
		return nil, nil, 0
	}
	icc := atomic.AddUint64(&nextIcc, 1)
	ch := make(chan *go808.Session, 1)
	sharedMap.Store(icc, ch)
	k := s.dial(c)
	if k == nil {
		return nil, nil, 0
	}
	k.Write(rawMsg(0x0003, icc, 1, nil, nil))
	select {
	case ss := <-ch:
		return k, ss, icc
	case <-time.After(longWait):
		c.failf("the handler of 0x0003 is not called for a valid message of a new connection")
		k.Close()
		return nil, nil, 0
	}
}

func succ(s uint16, n int) uint16 { return uint16((int(s)-1+n)%255) + 1 }

// drvSerial: rounds of concurrent sends; the numbers of a round are the next ones.
func drvSerial(c *vc) {
	k, ss, icc := sharedSession(c)
	if k == nil {
		return
	}
	defer k.Close()
	last := uint16(255) // as if 255 had been sent: 1 is next
	total := 0
	rounds := 60 + c.Intn(60)
	tag := uint32(0)
	for r := 0; r < rounds; r++ {
		g := 1 + c.Intn(16)
		if c.Intn(4) == 0 {
			g = 1
		}
		type res struct {
			serial uint16
			err    error
			kind   int
			tag    uint32
			id     uint16
		}
		out := make([]res, g)
		gate := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			tag++
			out[i] = res{kind: c.Intn(3), tag: tag, id: uint16(0x8900 + c.Intn(5))}
			wg.Add(1)
			go func(o *res) {
				defer wg.Done()
				<-gate
				body := []byte{byte(o.tag >> 24), byte(o.tag >> 16), byte(o.tag >> 8), byte(o.tag)}
				switch o.kind {
				case 0:
					o.serial, o.err = ss.Send(&ent{id: o.id, body: body})
				case 1:
					o.serial, o.err = ss.Request(&ent{id: o.id, body: body}, func(*protocol.Message) {})
				default:
					m := &protocol.Message{Header: protocol.Header{MsgID: protocol.MsgID(uint16(o.tag >> 16)), MsgSerialNo: uint16(o.tag)}}
					o.id = 0x8001
					o.serial, o.err = ss.Reply(m, protocol.T808_0x8001ResultFail)
				}
			}(&out[i])
		}
		close(gate)
		wg.Wait()
		var nums []int
		for _, o := range out {
			if o.err != nil {
				c.failf("send %d of round %d fails: %v", o.tag, r, o.err)
				return
			}
			nums = append(nums, int(o.serial))
		}
		want := map[uint16]bool{}
		for i := 1; i <= g; i++ {
			want[succ(last, i)] = true
		}
		seen := map[uint16]bool{}
		for _, o := range out {
			if !want[o.serial] || seen[o.serial] {
				sort.Ints(nums)
				c.note("%d concurrent sends after serial number %d", g, last)
				c.failf("after serial number %d, %d sends got the numbers %v", last, g, nums)
				return
			}
			seen[o.serial] = true
		}
		total += g
		if !k.wait(longWait, func(fs []got, closed bool) bool { return len(fs) >= total || closed }) {
			c.failf("%d messages sent, %d received", total, len(k.all()))
			return
		}
		fs := k.all()
		if len(fs) != total || len(k.bad) > 0 {
			c.failf("%d messages sent, %d received, malformed: %v", total, len(fs), k.bad)
			return
		}
		byTag := map[uint32]got{}
		for _, f := range fs[total-g:] {
			t := uint32(0)
			if f.id == 0x8001 && len(f.body) == 5 {
				t = uint32(f.body[0])<<8 | uint32(f.body[1]) | uint32(f.body[2])<<24 | uint32(f.body[3])<<16
			} else if len(f.body) == 4 {
				t = uint32(f.body[0])<<24 | uint32(f.body[1])<<16 | uint32(f.body[2])<<8 | uint32(f.body[3])
			}
			byTag[t] = f
		}
		for _, o := range out {
			f, ok := byTag[o.tag]
			if !ok {
				c.failf("message %d was not received", o.tag)
				return
			}
			if f.serial != o.serial || f.id != o.id || f.icc != icc {
				c.failf("Send returned %d for a message 0x%04x of terminal %d; the header has serial %d, id 0x%04x, terminal %d", o.serial, o.id, icc, f.serial, f.id, f.icc)
				return
			}
		}
		last = succ(last, g)
	}
	c.key = fmt.Sprint(icc, rounds)
	c.note("%d sends in %d rounds", total, rounds)
}

var locBody = []byte{0, 0, 0, 0, 0, 0, 0, 3, 1, 0x57, 0x9a, 0xc0, 6, 0xca, 0x5a, 0x80, 0, 50, 0, 60, 0, 70, 0x20, 0x05, 0x06, 0x07, 0x08, 0x09}

func responseBody(id, serial uint16) []byte {
	b := []byte{byte(serial >> 8), byte(serial)}
	switch id {
	case 0x0001:
		b = append(b, 0x81, 0x03, 0)
	case 0x0104:
		b = append(b, 0)
	case 0x0201, 0x0500:
		b = append(b, locBody...)
	case 0x0302:
		b = append(b, 7)
	case 0x0700:
		b = append(b, 3, 1, 2, 3)
	case 0x0802:
		b = append(b, 0, 0)
	case 0x0805:
		b = append(b, 0, 0, 0)
	}
	return b
}

var responseIDs = []uint16{0x0001, 0x0104, 0x0201, 0x0302, 0x0500, 0x0700, 0x0802, 0x0805}

type pendReq struct {
	id, serial uint16
	n          int
}

// drvRequests: random requests and responses against a model of the pending ones.
func drvRequests(c *vc) {
	k, ss, icc := sharedSession(c)
	if k == nil {
		return
	}
	defer k.Close()
	type call struct {
		n      int
		serial uint16
		id     uint16
		body   []byte
	}
	var mu sync.Mutex
	var calls []call
	var pend []pendReq
	nreq, never := 0, -1
	ids := []uint16{0x8103, 0x8104, 0x8201, 0x8302, 0x8500, 0x8700, 0x8801, 0x8802}[:2+c.Intn(7)]
	var trace []string
	var old []uint16 // serial numbers of replaced requests
	add := func(id, serial uint16, n int) {
		for i := range pend {
			if pend[i].id == id {
				old = append(old, pend[i].serial)
				pend[i] = pendReq{id, serial, n}
				return
			}
		}
		pend = append(pend, pendReq{id, serial, n})
	}
	sent := uint16(255)
	request := func(id uint16) bool {
		nreq++
		n := nreq
		mode := c.Intn(6)
		if c.Intn(8) == 0 {
			var err error
			k.paced(func() { sent, err = ss.Request(&ent{id: id}, nil) })
			if err != nil {
				c.failf("Request: %v", err)
				return false
			}
			trace = append(trace, fmt.Sprintf("request 0x%04x without callback: serial %d", id, sent))
			return true
		}
		var s uint16
		var err error
		cb := func(m *protocol.Message) {
			mu.Lock()
			b, _ := m.Body.Encode()
			var body []byte
			if len(b) >= 2 {
				body = b[:2]
			}
			calls = append(calls, call{n, m.Header.MsgSerialNo, uint16(m.Header.MsgID), body})
			mu.Unlock()
			switch mode {
			case 0:
				panic("callback panics")
			case 1:
				ss.Send(&ent{id: 0x8f01})
			case 2:
				ss.Request(&ent{id: 0x8f02}, nil)
			case 3: // a request that is never answered
				if s, err := ss.Request(&ent{id: 0x8f03}, func(*protocol.Message) {}); err == nil {
					mu.Lock()
					never = int(s)
					mu.Unlock()
				}
			}
		}
		k.paced(func() { s, err = ss.Request(&ent{id: id}, cb) })
		if err != nil {
			c.failf("Request: %v", err)
			return false
		}
		sent = s
		trace = append(trace, fmt.Sprintf("request %d: 0x%04x serial %d", n, id, s))
		add(id, s, n)
		return true
	}
	ops := 20 + c.Intn(60)
	serial := uint16(c.Intn(60000))
	var wantCalls []call
	for o := 0; o < ops; o++ {
		if c.Intn(8) == 0 { // other messages use up serial numbers
			n := 1 + c.Intn(240)
			for i := 0; i < n; i++ {
				k.paced(func() { ss.Send(&ent{id: 0x8f00}) })
			}
			trace = append(trace, fmt.Sprintf("%d other messages sent", n))
		}
		if len(pend) == 0 || c.Intn(5) < 2 {
			if !request(ids[c.Intn(len(ids))]) {
				return
			}
			continue
		}
		id := responseIDs[c.Intn(len(responseIDs))]
		var rs uint16
		switch x := c.Intn(10); {
		case x < 6:
			rs = pend[c.Intn(len(pend))].serial
		case x < 7:
			rs = 0
		case x < 8:
			rs = pend[c.Intn(len(pend))].serial + 256*uint16(1+c.Intn(3))
		case x < 9 && len(old) > 0:
			rs = old[c.Intn(len(old))]
		default:
			rs = uint16(c.Intn(300))
		}
		twice := 0
		for _, p := range pend {
			if p.serial == rs {
				twice++
			}
		}
		mu.Lock()
		if int(rs) == never {
			twice = 2
		}
		mu.Unlock()
		if twice > 1 { // serial numbers repeat after 255 messages: either may be meant
			continue
		}
		serial++
		if c.Intn(10) == 0 {
			// not a response: heartbeat and a location report
			k.Write(rawMsg(0x0002, icc, serial, nil, nil))
			trace = append(trace, "heartbeat")
		} else {
			from, how := icc, ""
			if c.Intn(8) == 0 { // the terminal may change its number
				from, how = icc+5000000000, " with another terminal number"
			}
			var pkt *[2]uint16
			if c.Intn(8) == 0 { // sub-packets are not merged here
				pkt = &[2]uint16{2, uint16(1 + c.Intn(2))}
				how += " as a sub-packet"
			}
			k.Write(rawMsg(id, from, serial, responseBody(id, rs), pkt))
			trace = append(trace, fmt.Sprintf("response 0x%04x to serial %d%s", id, rs, how))
			var m []int
			for i, p := range pend {
				if p.serial == rs {
					m = append(m, i)
				}
			}
			if len(m) == 1 {
				wantCalls = append(wantCalls, call{pend[m[0]].n, serial, id, responseBody(id, rs)[:2]})
				pend = append(append([]pendReq{}, pend[:m[0]]...), pend[m[0]+1:]...)
			}
		}
		serial++
		c.desc = trace
		if !k.sync(c, icc, serial) {
			return
		}
		mu.Lock()
		cs := append([]call{}, calls...)
		mu.Unlock()
		if fmt.Sprint(cs) != fmt.Sprint(wantCalls) {
			c.failf("callbacks called (request, response serial, id, reply serial): %v, want %v", cs, wantCalls)
			return
		}
	}
	_ = sent
	c.key = fmt.Sprint(trace)
}

// drvEarly: the response arrives while Request is still running.
func drvEarly(c *vc) {
	k, ss, icc := sharedSession(c)
	if k == nil {
		return
	}
	defer k.Close()
	var handled int32
	stop := make(chan struct{})
	defer close(stop)
	go func() { // the terminal answers at once
		ok := k.wait(longWait, func(fs []got, closed bool) bool { return len(fs) > 0 || closed })
		fs := k.all()
		if !ok || len(fs) == 0 {
			return
		}
		k.Write(rawMsg(0x0001, icc, 50, responseBody(0x0001, fs[0].serial), nil))
		k.Write(rawMsg(unknownID, icc, 51, nil, nil))
		k.wait(longWait, func(fs []got, closed bool) bool { return len(fs) > 1 || closed })
		atomic.StoreInt32(&handled, 1)
	}()
	var n int32
	e := &ent{id: 0x8103}
	e.hook = func() {
		// gives the response time to arrive if the request is already sent
		end := time.Now().Add(60 * time.Millisecond)
		for atomic.LoadInt32(&handled) == 0 && time.Now().Before(end) {
			time.Sleep(time.Millisecond)
		}
	}
	_, err := ss.Request(e, func(*protocol.Message) { atomic.AddInt32(&n, 1) })
	if err != nil {
		c.failf("Request: %v", err)
		return
	}
	if !eventually(longWait, func() bool { return atomic.LoadInt32(&handled) == 1 }) {
		c.inconclusive("terminal too slow")
		return
	}
	c.key = fmt.Sprint(icc)
	c.note("the terminal answers the request before Request returns")
	if v := atomic.LoadInt32(&n); v != 1 {
		c.failf("the callback was called %d times for a response that arrived early", v)
	}
}
