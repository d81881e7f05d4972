package HARNESS

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

func init() {
	vdrivers = append(vdrivers,
		vdriver{name: "dispatch", props: "C19", n: 500, slow: true, par: true, run: drvDispatch},
		vdriver{name: "sessions", props: "C20", n: 40, slow: true, par: true, wide: 12, run: drvSessions},
		vdriver{name: "keepalive", props: "C20", n: 16, slow: true, par: true, wide: 16, run: drvKeepalive},
		vdriver{name: "closerace", props: "C20", n: 24, slow: true, par: true, run: drvCloseRace},
	)
}

// ---- C19 ---------------------------------------------------------------------

type seenMsg struct {
	where  string // handler or callback
	id     uint16
	serial uint16
	data   string // what the body's reader yields
}

type dispCase struct {
	mu   sync.Mutex
	seen []seenMsg
	ss   *go808.Session
	bad  []string
}

var (
	dispOnce [2]sync.Once
	dispSrv  [2]*srv
	dispIcc  sync.Map // icc -> *dispCase
)

// handled: ids with a handler in the dispatch servers.
var handledIDs = []uint16{0x0002, 0x0003, 0x0200, 0x0801, 0x0001, 0x0805, 0x0900}

func dispServer(c *vc, merge int) *srv {
	dispOnce[merge].Do(func() {
		s := startServer(c, go808.Options{Keepalive: 600, AutoMergePacket: merge == 1})
		if s == nil {
			return
		}
		for _, id := range handledIDs {
			id := id
			s.AddHandler(protocol.MsgID(id), func(ss *go808.Session, m *protocol.Message) {
				panic("replaced")
			})
			s.AddHandler(protocol.MsgID(id), nil) // ignored
			s.AddHandler(protocol.MsgID(id), func(ss *go808.Session, m *protocol.Message) {
				v, ok := dispIcc.Load(m.Header.IccID)
				if !ok {
					return
				}
				d := v.(*dispCase)
				data := ""
				if p, ok := m.Body.(protocol.EntityPacket); ok && p.GetReader() != nil {
					b, err := io.ReadAll(p.GetReader())
					data = string(b)
					if err != nil {
						data = "error " + err.Error()
					}
				}
				d.mu.Lock()
				if d.ss == nil {
					d.ss = ss
				}
				if d.ss != ss || ss.GetServer() != s.Server {
					d.bad = append(d.bad, fmt.Sprintf("the handler of message 0x%04x gets another session", id))
				}
				if uint16(m.Header.MsgID) != id {
					d.bad = append(d.bad, fmt.Sprintf("the handler of 0x%04x gets a message 0x%04x", id, uint16(m.Header.MsgID)))
				}
				d.seen = append(d.seen, seenMsg{"handler", uint16(m.Header.MsgID), m.Header.MsgSerialNo, data})
				d.mu.Unlock()
				if m.Header.MsgSerialNo%5 == 0 {
					panic(fmt.Sprintf("handler of message %d panics", m.Header.MsgSerialNo))
				}
			})
		}
		dispSrv[merge] = s
	})
	if dispSrv[merge] == nil {
		c.inconclusive("server not started")
	}
	return dispSrv[merge]
}

func mediaBody(tag uint32, data []byte) []byte {
	b := []byte{byte(tag >> 24), byte(tag >> 16), byte(tag >> 8), byte(tag), 0, 0, 0, 1}
	return append(append(b, locBody...), data...)
}

// drvDispatch: random messages from one terminal; what is replied, which
// handlers run and what they see.
func drvDispatch(c *vc) {
	merge := c.Intn(2)
	s := dispServer(c, merge)
	if s == nil {
		return
	}
	icc := atomic.AddUint64(&nextIcc, 1)
	d := &dispCase{}
	dispIcc.Store(icc, d)
	defer dispIcc.Delete(icc)
	k := s.dial(c)
	if k == nil {
		return
	}
	defer k.Close()
	var trace []string
	log := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)); c.desc = trace }
	log("merging sub-packets: %v", merge == 1)
	type reply struct {
		serial, id uint16
		result     byte
	}
	var wantR []reply
	var wantS []seenMsg
	serial := uint16(c.Intn(60000))
	send := func(id uint16, body []byte, pkt *[2]uint16) uint16 {
		serial++
		k.Write(rawMsg(id, icc, serial, body, pkt))
		return serial
	}
	isHandled := func(id uint16) bool {
		for _, h := range handledIDs {
			if h == id {
				return true
			}
		}
		return false
	}
	type upload struct {
		tag   uint32
		sum   uint16
		parts map[uint16][]byte
	}
	var ups []*upload
	pending := map[uint16]uint16{} // message id -> serial number of the pending request
	synced := 0                    // replies known to have arrived
	verify := func() bool {
		serial++
		sync := serial
		if !k.sync(c, icc, sync) {
			return false
		}
		wantR = append(wantR, reply{sync, unknownID, 3})
		var gotR []reply
		for _, f := range k.all() {
			if f.id == 0x8001 && len(f.body) == 5 {
				gotR = append(gotR, reply{uint16(f.body[0])<<8 | uint16(f.body[1]), uint16(f.body[2])<<8 | uint16(f.body[3]), f.body[4]})
				if f.icc != icc {
					c.failf("the reply is addressed to terminal %d, want %d", f.icc, icc)
				}
			}
		}
		d.mu.Lock()
		defer d.mu.Unlock()
		if len(d.bad) > 0 {
			c.failf("%s", d.bad[0])
		}
		if fmt.Sprint(gotR) != fmt.Sprint(wantR) {
			c.failf("general replies (serial, id, result) %v, want %v", gotR, wantR)
		}
		if fmt.Sprintf("%q", d.seen) != fmt.Sprintf("%q", wantS) {
			i := 0
			for i < len(d.seen) && i < len(wantS) && d.seen[i] == wantS[i] {
				i++
			}
			show := func(l []seenMsg) string {
				if i >= len(l) {
					return "nothing more"
				}
				return fmt.Sprintf("%s of 0x%04x, message %d, data %x", l[i].where, l[i].id, l[i].serial, l[i].data)
			}
			c.failf("dispatch %d is %s, want %s", i, show(d.seen), show(wantS))
		}
		synced = len(wantR)
		return len(c.fails) == 0
	}
	// the session of this connection
	wantS = append(wantS, seenMsg{"handler", 0x0003, send(0x0003, nil, nil), ""})
	if !verify() {
		return
	}
	ss := d.ss
	if got, ok := s.GetSession(ss.ID()); !ok || got != ss {
		c.failf("the session handed to the handler is not the one in the table")
		return
	}
	// a part that cannot be stored
	failing := func() bool {
		u := protocol.MsgID(0x0801)
		tag := uint32(500)
		sum := uint16(2 + c.Intn(3))
		seq := uint16(1 + c.Intn(int(sum)))
		data := []byte(fmt.Sprintf("part %d of terminal %d, %x", seq, icc, c.bytes(20)))
		n := send(0x0801, mediaBody(tag, data), &[2]uint16{sum, seq})
		wantR = append(wantR, reply{n, 0x0801, 0})
		if !verify() {
			return false
		}
		file := mpFind(data)
		if file == "" {
			return true
		}
		defer os.RemoveAll(file)
		os.Remove(file)
		if os.Mkdir(file, 0755) != nil {
			return true
		}
		mf := go808.MultipartFile{IccID: icc, MsgID: u, Tag: tag, Sum: sum}
		if mf.Write(seq, data) == nil {
			return true // it finds another place
		}
		n = send(0x0801, mediaBody(tag, data), &[2]uint16{sum, seq})
		log("message %d: media %d part %d of %d, which cannot be stored", n, tag, seq, sum)
		wantR = append(wantR, reply{n, 0x0801, 1})
		return verify()
	}
	if merge == 1 && c.flip(12) && !failing() {
		return
	}
	ops := 8 + c.Intn(50)
	for o := 0; o < ops; o++ {
		switch x := c.Intn(14); {
		case x < 1:
			id := []uint16{0x0f0f, 0x7777, 0xffff, 0}[c.Intn(4)]
			var pkt *[2]uint16
			if c.flip(3) {
				pkt = &[2]uint16{uint16(1 + c.Intn(3)), 1}
			}
			n := send(id, c.bytes(c.Intn(20)), pkt)
			log("message %d: unknown id 0x%04x, sub-packet %v", n, id, pkt != nil)
			wantR = append(wantR, reply{n, id, 3})
		case x < 3: // body does not decode
			id := []uint16{0x0200, 0x0001, 0x0801, 0x0805}[c.Intn(4)]
			var pkt *[2]uint16
			if c.flip(2) {
				pkt = &[2]uint16{1, 1}
			}
			n := send(id, []byte{1}, pkt)
			log("message %d: 0x%04x with one byte, sub-packet %v", n, id, pkt != nil)
			wantR = append(wantR, reply{n, id, 3})
		case x < 6: // valid messages with and without handler, some flagged as sub-packets
			id := []uint16{0x0002, 0x0003, 0x0200, 0x0102}[c.Intn(4)]
			var body []byte
			switch id {
			case 0x0200:
				body = locBody
			case 0x0102:
				body = []byte("auth")
			}
			var pkt *[2]uint16
			if c.flip(4) {
				pkt = &[2]uint16{uint16(1 + c.Intn(3)), uint16(1 + c.Intn(2))}
			}
			n := send(id, body, pkt)
			log("message %d: 0x%04x, sub-packet %v", n, id, pkt != nil)
			if isHandled(id) {
				wantS = append(wantS, seenMsg{"handler", id, n, ""})
			}
		case x < 8: // a request and its response: first the callback, then the handler
			id := []uint16{0x8103, 0x8104, 0x8801}[c.Intn(3)]
			if !verify() { // responses on their way come first
				return
			}
			sn, err := ss.Request(&ent{id: id}, func(m *protocol.Message) {
				d.mu.Lock()
				d.seen = append(d.seen, seenMsg{"callback", uint16(m.Header.MsgID), m.Header.MsgSerialNo, ""})
				d.mu.Unlock()
				if m.Header.MsgSerialNo%7 == 0 {
					panic("callback panics")
				}
			})
			if err != nil {
				c.failf("Request: %v", err)
				return
			}
			pending[id] = sn
			log("request 0x%04x with serial number %d", id, sn)
		case x < 9 && len(pending) > 0:
			var ids []int
			for i := range pending {
				ids = append(ids, int(i))
			}
			sort.Ints(ids)
			rid := uint16(ids[c.Intn(len(ids))])
			sn := pending[rid]
			same := 0
			for _, x := range pending {
				if x == sn {
					same++
				}
			}
			if same > 1 {
				continue
			}
			id := []uint16{0x0001, 0x0805, 0x0104}[c.Intn(3)]
			n := send(id, responseBody(id, sn), nil)
			log("message %d: response 0x%04x to %d", n, id, sn)
			delete(pending, rid)
			wantS = append(wantS, seenMsg{"callback", id, n, ""})
			if isHandled(id) {
				wantS = append(wantS, seenMsg{"handler", id, n, ""})
			}
		case x < 10: // media in one packet
			data := c.bytes(c.Intn(60))
			n := send(0x0801, mediaBody(77, data), nil)
			log("message %d: whole media of %d bytes", n, len(data))
			wantS = append(wantS, seenMsg{"handler", 0x0801, n, string(data)})
		default: // a sub-packet of some media
			var u *upload
			if len(ups) > 0 && c.Intn(5) > 0 {
				u = ups[c.Intn(len(ups))]
			} else {
				u = &upload{tag: uint32(1000 + len(ups)), sum: uint16(1 + c.Intn(5)), parts: map[uint16][]byte{}}
				if c.flip(4) {
					u.sum = uint16(10 + c.Intn(3))
				}
				ups = append(ups, u)
			}
			seq := uint16(1 + c.Intn(int(u.sum)))
			if c.Intn(3) > 0 {
				for i := uint16(1); i <= u.sum; i++ {
					if u.parts[i] == nil {
						seq = i
						break
					}
				}
			}
			data := c.bytes(c.Intn(30))
			n := send(0x0801, mediaBody(u.tag, data), &[2]uint16{u.sum, seq})
			log("message %d: media %d part %d of %d, %d bytes", n, u.tag, seq, u.sum, len(data))
			if merge == 0 {
				wantS = append(wantS, seenMsg{"handler", 0x0801, n, string(data)})
				continue
			}
			wantR = append(wantR, reply{n, 0x0801, 0})
			u.parts[seq] = append(make([]byte, 0, 1), data...)
			if len(u.parts) == int(u.sum) {
				var all bytes.Buffer
				for i := uint16(1); i <= u.sum; i++ {
					all.Write(u.parts[i])
				}
				u.parts = map[uint16][]byte{}
				wantS = append(wantS, seenMsg{"handler", 0x0801, n, all.String()})
			}
		}
		if (c.flip(6) || len(wantR)-synced > 8) && !verify() {
			return
		}
	}
	if verify() {
		c.key = fmt.Sprint(trace)
	}
}

// ---- C20 ---------------------------------------------------------------------

type closeLog struct {
	mu sync.Mutex
	n  map[*go808.Session]int
}

func (l *closeLog) count(s *go808.Session) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.n[s]
}

type live struct {
	k    *client
	ss   *go808.Session
	id   uint64
	open bool
}

// drvSessions: random connects, closes from either side, lookups and broadcasts.
func drvSessions(c *vc) {
	cl := &closeLog{n: map[*go808.Session]int{}}
	panics := c.flip(2)
	inTable := int32(0)
	var s *srv
	s = startServer(c, go808.Options{Keepalive: 600, CloseHandler: func(ss *go808.Session) {
		cl.mu.Lock()
		cl.n[ss]++
		n := len(cl.n)
		cl.mu.Unlock()
		if s != nil {
			if _, ok := s.GetSession(ss.ID()); ok {
				atomic.AddInt32(&inTable, 1)
			}
		}
		if panics && n%2 == 0 {
			panic("close handler panics")
		}
	}})
	if s == nil {
		return
	}
	var all []*live
	var trace []string
	log := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)); c.desc = trace }
	log("close handler panics: %v", panics)
	open := func() (r []*live) {
		for _, l := range all {
			if l.open {
				r = append(r, l)
			}
		}
		return
	}
	defer func() {
		for _, l := range all {
			l.k.Close()
		}
	}()
	check := func() bool {
		for i, l := range all {
			got, ok := s.GetSession(l.id)
			if l.open && (!ok || got != l.ss) {
				c.failf("session %d (connection %d) is open but not in the table", l.id, i)
				return false
			}
			if l.open && cl.count(l.ss) != 0 {
				c.failf("the close handler ran for the open session %d", l.id)
				return false
			}
			if !l.open && (ok || got != nil) {
				c.failf("session %d (connection %d) is closed but still in the table", l.id, i)
				return false
			}
			if !l.open && cl.count(l.ss) != 1 {
				c.failf("the close handler ran %d times for the closed session %d", cl.count(l.ss), l.id)
				return false
			}
		}
		if g, ok := s.GetSession(1 << 60); ok || g != nil {
			c.failf("a session is found under an id that was never given out")
			return false
		}
		return true
	}
	settle := func(l *live) {
		l.open = false
		eventually(longWait, func() bool {
			_, ok := s.GetSession(l.id)
			return !ok && cl.count(l.ss) > 0
		})
		time.Sleep(time.Duration(c.Intn(3)) * time.Millisecond)
	}
	icc := uint64(14000000000)
	ops := 6 + c.Intn(30)
	for o := 0; o < ops; o++ {
		os := open()
		switch x := c.Intn(10); {
		case len(os) == 0 || x < 4:
			icc++
			k, ss := s.sessionOf(c, icc)
			if k == nil {
				return
			}
			for _, l := range all {
				if l.ss == ss || l.open && l.id == ss.ID() {
					c.failf("two connections share a session")
					return
				}
			}
			all = append(all, &live{k, ss, ss.ID(), true})
			log("connection %d: session %d", len(all)-1, ss.ID())
		case x < 6:
			l := os[c.Intn(len(os))]
			switch c.Intn(4) {
			case 0:
				log("the terminal of session %d disconnects", l.id)
				l.k.Close()
			case 1:
				log("session %d is closed by the server", l.id)
				l.ss.Close()
			case 2:
				log("session %d is closed by the server twice and by the terminal", l.id)
				var wg sync.WaitGroup
				for i := 0; i < 3; i++ {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						if i == 2 {
							l.k.Close()
						} else {
							l.ss.Close()
						}
					}(i)
				}
				wg.Wait()
			default:
				log("the terminal of session %d sends rubbish", l.id)
				l.k.Write([]byte("no flag byte here"))
			}
			settle(l)
		default:
			// a broadcast reaches the open sessions
			before := make([]int, len(os))
			for i, l := range os {
				before[i] = len(l.k.all())
			}
			n := s.Broadcast(&ent{id: 0x8f77, body: []byte{byte(o)}})
			log("broadcast to %d sessions: %d", len(os), n)
			if n != len(os) {
				c.failf("Broadcast returns %d with %d open sessions", n, len(os))
				return
			}
			for i, l := range os {
				if !l.k.wait(longWait, func(fs []got, closed bool) bool { return len(fs) > before[i] }) {
					c.failf("the broadcast does not reach session %d", l.id)
					return
				}
				if f := l.k.all()[before[i]]; f.id != 0x8f77 || len(f.body) != 1 || f.body[0] != byte(o) {
					c.failf("session %d receives 0x%04x %x instead of the broadcast", l.id, f.id, f.body)
					return
				}
			}
		}
		if !check() {
			return
		}
	}
	if n := atomic.LoadInt32(&inTable); n > 0 {
		c.failf("%d sessions were still in the table when their close handler ran", n)
	}
	c.key = fmt.Sprint(trace)
}

// drvKeepalive: silent sessions are closed by the read timeout, others are not.
func drvKeepalive(c *vc) {
	w := watchLag()
	defer close(w.stop)
	cl := &closeLog{n: map[*go808.Session]int{}}
	secs := int64(2)
	if c.flip(2) {
		afterManySessions()
	}
	s := startServer(c, go808.Options{Keepalive: secs, CloseHandler: func(ss *go808.Session) {
		cl.mu.Lock()
		cl.n[ss]++
		cl.mu.Unlock()
	}})
	if s == nil {
		return
	}
	s.AddHandler(protocol.MsgT808_0x0002, func(ss *go808.Session, m *protocol.Message) {
		if m.Header.MsgSerialNo%3 == 0 {
			panic("handler panics")
		}
	})
	n := 2 + c.Intn(12)
	silent := map[int]bool{}
	var all []*live
	for i := 0; i < n; i++ {
		k, ss := s.sessionOf(c, uint64(15000000000+i))
		if k == nil {
			return
		}
		defer k.Close()
		all = append(all, &live{k, ss, ss.ID(), true})
		silent[i] = c.flip(2)
	}
	last := time.Now()
	begin := last
	c.note("%d sessions, keepalive %d s, silent: %v", n, secs, silent)
	c.key = fmt.Sprint(n, silent, c.idx)
	serial := uint16(1)
	for time.Since(begin) < 5500*time.Millisecond {
		time.Sleep(400 * time.Millisecond)
		serial++
		for i, l := range all {
			if !silent[i] {
				l.k.Write(rawMsg(0x0002, uint64(15000000000+i), serial, nil, nil))
			} else if time.Since(last) < time.Duration(secs-1)*time.Second-300*time.Millisecond {
				if _, ok := s.GetSession(l.id); !ok {
					c.failf("session %d is closed %v after its last message, keepalive %d s", l.id, time.Since(last), secs)
					return
				}
			}
		}
	}
	if w.lag() > 500*time.Millisecond {
		c.inconclusive("the machine is too busy (%v late)", w.lag())
		return
	}
	for i, l := range all {
		_, ok := s.GetSession(l.id)
		if silent[i] {
			if ok || cl.count(l.ss) != 1 || !l.k.wait(longWait, func(_ []got, closed bool) bool { return closed }) {
				c.failf("the silent session %d is still open after %v, keepalive %d s (in table: %v, close handler calls: %d)", l.id, time.Since(begin), secs, ok, cl.count(l.ss))
				return
			}
		} else if !ok || cl.count(l.ss) != 0 {
			c.failf("session %d sends every 0.4 s but was closed, keepalive %d s", l.id, secs)
			return
		}
	}
}

// drvCloseRace: connections that are opened and closed at once, some by the
// server while they are being set up, with broadcasts and lookups going on.
func drvCloseRace(c *vc) {
	cl := &closeLog{n: map[*go808.Session]int{}}
	s := startServer(c, go808.Options{Keepalive: 600, CloseHandler: func(ss *go808.Session) {
		cl.mu.Lock()
		cl.n[ss]++
		cl.mu.Unlock()
	}})
	if s == nil {
		return
	}
	n := 10 + c.Intn(40)
	stop := make(chan struct{})
	var bg sync.WaitGroup
	bg.Add(1)
	go func() {
		defer bg.Done()
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			if i%20 == 0 && i < 200 { // the link closes sessions whose queue is full
				s.Broadcast(&ent{id: 0x8f70, body: []byte{byte(i)}})
			}
			base := atomic.LoadUint64(&linkSessionID)
			for id := base - 20; id < base+20; id++ {
				if ss, ok := s.GetSession(id); ok && ss.ID() != id {
					c.failf("looking up %d gives session %d", id, ss.ID())
				}
			}
			time.Sleep(time.Millisecond)
		}
	}()
	keep := &sync.Map{}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		mode := c.Intn(3)
		go func(i int) {
			defer wg.Done()
			cc := &vc{}
			k := s.dial(cc)
			if k == nil {
				return
			}
			switch mode {
			case 0:
				k.Close()
			case 1:
				k.Write([]byte{1, 2, 3})
				k.Close()
			default:
				keep.Store(i, k)
			}
		}(i)
	}
	wg.Wait()
	kept := 0
	keep.Range(func(_, v interface{}) bool { kept++; return true })
	time.Sleep(50 * time.Millisecond)
	close(stop)
	bg.Wait()
	c.key = fmt.Sprint(n, kept)
	c.note("%d connections at once, %d of them stay open", n, kept)
	if len(c.fails) > 0 {
		return
	}
	got := -1
	if !eventually(longWait, func() bool {
		time.Sleep(20 * time.Millisecond)
		got = s.Broadcast(&ent{id: 0x8f71})
		return got == kept
	}) {
		c.failf("%d connections are open, a broadcast reaches %d sessions", kept, got)
		return
	}
	twice := func() bool {
		cl.mu.Lock()
		defer cl.mu.Unlock()
		for ss, k := range cl.n {
			if k != 1 {
				c.failf("the close handler ran %d times for session %d", k, ss.ID())
				return true
			}
		}
		return false
	}
	if twice() {
		return
	}
	keep.Range(func(_, v interface{}) bool { v.(*client).Close(); return true })
	if !eventually(longWait, func() bool { return s.Broadcast(&ent{id: 0x8f72}) == 0 }) {
		c.failf("sessions are left in the table after all connections closed")
		return
	}
	time.Sleep(5 * time.Millisecond)
	twice()
}
