import sys; sys.path.insert(0,"/verif/tools")
from mkseed import seed
M='protocol/message.go';H='protocol/header.go';L='protocol/helpers.go';B='protocol/bufio.go'
T='timer.go';S='session.go';SV='server.go';SH='session_handler.go';PC='protocol.go';PR='protocol/params.go';L2='protocol/t808_0x0200.go'
seed("S05","C05","a message whose checksum is 0x7D or 0x7E","the checksum is written without escaping, so that the frame cannot be decoded or contains an inner flag",
[(M,".write(buffer, []byte{checkSum})\n	buffer.WriteByte(PrefixID)","\n	buffer.WriteByte(checkSum)\n	buffer.WriteByte(PrefixID)")],
'''package protocol
import ("testing";"bytes")
func TestDemo(t *testing.T) {
	for n := 0; n < 65536; n++ {
		m := Message{Header: Header{IccID: 12345, MsgSerialNo: uint16(n)}, Body: &T808_0x0002{}}
		d, err := m.Encode()
		if err != nil { t.Fatal(err) }
		if bytes.IndexByte(d[1:len(d)-1], 0x7e) >= 0 { t.Fatalf("inner flag %x", d) }
		var g Message
		if err := g.Decode(d); err != nil || g.Header.MsgSerialNo != uint16(n) { t.Fatalf("%x: %v", d, err) }
	}
}
''')
seed("S06","C06","a frame whose contents end in a lone escape byte before an escaped checksum","a trailing escape byte is dropped instead of rejected",
[(M,"		if i+1 >= len(data) {\n			return errors.ErrInvalidMessage\n		}\n","		if i+1 >= len(data) {\n			break\n		}\n")],
'''package protocol
import "testing"
func TestDemo(t *testing.T) {
	body := []byte{0x00, 0x02, 0x00, 0x00, 0, 0, 0, 0, 0, 0, 0, 0x7f}
	sum := byte(0)
	for _, x := range body { sum ^= x }
	if sum != 0x7d { t.Fatalf("%x", sum) }
	f := append([]byte{0x7e}, body...)
	f = append(f, 0x7d, 0x7d, 0x01, 0x7e)
	var m Message
	if err := m.Decode(f); err == nil { t.Fatal("accepted a frame with a dangling escape byte") }
}
''')
seed("S07","C07","a header whose serial number is encoded after the same header value was used for another message with sub-packets","a sub-packet header keeps the flag of an earlier encryption, so that the attribute word changes",
[("protocol/property.go","	*property |= Property","	*property ^= Property")] if False else [(H,"	// 写入终端号码\n	writer.Write(stringToBCD(strconv.FormatUint(header.IccID, 10), 6))","	// 写入终端号码\n	iccID := strconv.FormatUint(header.IccID, 10)\n	if len(iccID) > 11 {\n		iccID = iccID[:11]\n	}\n	writer.Write(stringToBCD(iccID, 6))")],
'''package protocol
import "testing"
func TestDemo(t *testing.T) {
	h := Header{MsgID: 0x0200, IccID: 123456789012, MsgSerialNo: 9, Packet: &Packet{Sum: 3, Seq: 2}}
	d, err := h.Encode()
	if err != nil { t.Fatal(err) }
	var g Header
	if err := g.Decode(d); err != nil || g.IccID != h.IccID { t.Fatal(g.IccID, err) }
}
''')
import json
json.dump({"property":"C07","needs":"a terminal number of exactly 12 digits","what_it_breaks":"a 12-digit terminal number loses its last digit"},open("/verif/seeded/S07/meta.json","w"),indent=1)
seed("S08","C08","a bad frame followed by more data in the same read","what follows a damaged frame in the receive buffer is thrown away",
[(PC,"		codec.bufferReceiving.Next(end + 1)\n		log.WithFields(log.Fields{\n			\"data\":   fmt.Sprintf","		codec.bufferReceiving.Reset()\n		log.WithFields(log.Fields{\n			\"data\":   fmt.Sprintf")],
'''package go808_test
import ("testing";"bytes";"gitee.com/coco/go808";"gitee.com/coco/go808/protocol";"io")
type rw struct{ io.Reader; io.Writer }
func TestDemo(t *testing.T) {
	m := protocol.Message{Header: protocol.Header{IccID: 7, MsgSerialNo: 5}, Body: &protocol.T808_0x0002{}}
	d, err := m.Encode()
	if err != nil { t.Fatal(err) }
	bad := append([]byte{}, d...)
	bad[5] ^= 1
	var p go808.Protocol
	c, err := p.NewCodec(rw{bytes.NewReader(append(bad, d...)), nil})
	if err != nil { t.Fatal(err) }
	if _, err := c.Receive(); err == nil { t.Fatal("bad frame accepted") }
	got, err := c.Receive()
	if err != nil { t.Fatal(err) }
	if got.(protocol.Message).Header.MsgSerialNo != 5 { t.Fatal("wrong message") }
}
''',pkg="root")
seed("S09","C09","two messages of one id decoded from different frames while the first is still in use","both decode into the same entity",
[(M,"	entity := creator()\n","	entity, ok := entityCache[typ]\n	if !ok || typ != uint16(MsgT808_0x8103) {\n		entity = creator()\n		entityCache[typ] = entity\n	}\n"),
 (M,"// 消息包\n","// 缓存\nvar entityCache = make(map[uint16]Entity)\n\n// 消息包\n")],
'''package protocol
import "testing"
func TestDemo(t *testing.T) {
	enc := func(id uint32) []byte {
		m := Message{Header: Header{IccID: 1}, Body: &T808_0x8103{Params: []*Param{new(Param).SetByte(id, 1)}}}
		d, err := m.Encode()
		if err != nil { t.Fatal(err) }
		return d
	}
	var a, b Message
	if err := a.Decode(enc(1)); err != nil { t.Fatal(err) }
	if err := b.Decode(enc(2)); err != nil { t.Fatal(err) }
	if a.Body == b.Body || a.Body.(*T808_0x8103).Params[0].ID() != 1 { t.Fatal("shared") }
}
''')
seed("S10","C10","an item of a known type whose announced length is longer than the type needs","the surplus bytes of an over-long item are ignored instead of rejected",
[(L2,"		if count != length {","		if count > length {")],
'''package protocol
import ("testing";"time")
func TestDemo(t *testing.T) {
	e := T808_0x0200{Time: time.Unix(1700000000, 0)}
	d, err := e.Encode()
	if err != nil { t.Fatal(err) }
	d = append(d, 0x30, 2, 9, 9)
	var g T808_0x0200
	if _, err := g.Decode(d); err == nil { t.Fatal("accepted") }
}
''')
seed("S11","C11","a coordinate between -1 and 0 degrees","the south flag is lost for latitudes between -1 and 0 degrees",
[(L2,"	if lat < 0 {","	if entity.Lat.IntPart() < 0 {")],
'''package protocol
import ("testing";"time";"github.com/shopspring/decimal")
func TestDemo(t *testing.T) {
	e := T808_0x0200{Time: time.Unix(1700000000, 0), Lat: decimal.New(-250000, -6)}
	d, err := e.Encode()
	if err != nil { t.Fatal(err) }
	var g T808_0x0200
	if _, err := g.Decode(d); err != nil || !g.Lat.Equal(e.Lat) { t.Fatal(g.Lat, err) }
}
''')
seed("S12","C13","a parameter decoded from a message and then set to a longer value","setting a decoded parameter writes into the message it came in and changes the parameter behind it",
[(PR,"	var buffer [4]byte\n	binary.BigEndian.PutUint32(buffer[:], n)\n	param.serialized = buffer[:]\n","	var buffer [4]byte\n	binary.BigEndian.PutUint32(buffer[:], n)\n	param.serialized = append(param.serialized[:0], buffer[:]...)\n")],
'''package protocol
import "testing"
func TestDemo(t *testing.T) {
	m := T808_0x8103{Params: []*Param{new(Param).SetByte(1, 7), new(Param).SetByte(2, 8)}}
	d, err := m.Encode()
	if err != nil { t.Fatal(err) }
	var g T808_0x8103
	if _, err := g.Decode(d); err != nil { t.Fatal(err) }
	g.Params[0].SetUint32(1, 0xffffffff)
	if b, err := g.Params[1].GetByte(); err != nil || b != 8 { t.Fatal(b, err) }
	d2, err := m.Encode()
	if err != nil { t.Fatal(err) }
	if string(d) != string(d2) { t.Fatal("the message changed") }
}
''')
seed("S13","C14","a body whose length is a multiple of the chunk size","the last full chunk of a body is lost",
[(L,"	for len(data) >= limit {","	for len(data) >= limit+1 {"),(L,"	if len(data) > 0 {\n		chunks","	if len(data) > 0 && len(data) < limit {\n		chunks")],
'''package protocol
import ("testing";"crypto/rand";"crypto/rsa";"crypto/sha1";"bytes")
func TestDemo(t *testing.T) {
	k, err := rsa.GenerateKey(rand.Reader, 1024)
	if err != nil { t.Fatal(err) }
	for _, n := range []int{1, 85, 86, 87, 172, 173} {
		msg := bytes.Repeat([]byte{5}, n)
		c, err := EncryptOAEP(sha1.New(), &k.PublicKey, msg, nil)
		if err != nil { t.Fatal(err) }
		p, err := DecryptOAEP(sha1.New(), k, c, nil)
		if err != nil || !bytes.Equal(p, msg) { t.Fatal(n, len(p), err) }
	}
}
''')
seed("S14","C15","two goroutines sending at the same time, one reading the counter between the other's step and its own","a number is handed out twice when another send steps in between",
[(S,"		} else if atomic.CompareAndSwapUint32(&session.next, id, id+1) {\n			id += 1\n			break","		} else if atomic.CompareAndSwapUint32(&session.next, id, id+1) {\n			id = atomic.LoadUint32(&session.next)\n			break")],
'''package go808
import ("testing";"sync")
func TestDemo(t *testing.T) {
	for round := 0; round < 4000; round++ {
		s := &Session{}
		const G, N = 8, 31
		var wg sync.WaitGroup
		var out [G][N]uint16
		start := make(chan bool)
		for g := 0; g < G; g++ {
			wg.Add(1)
			go func(g int) { defer wg.Done(); <-start; for i := 0; i < N; i++ { out[g][i] = s.nextID() } }(g)
		}
		close(start)
		wg.Wait()
		seen := map[uint16]bool{}
		for _, r := range out { for _, v := range r {
			if v == 0 || v > 255 || seen[v] { t.Fatalf("round %d: %d", round, v) }
			seen[v] = true
		} }
	}
}
''',pkg="root")
seed("S15","C16","two pending requests of which the one registered last is answered first","answering the request registered last forgets another one",
[(S,"			session.requests[idx] = session.requests[len(session.requests)-1]\n			session.requests = session.requests[:len(session.requests)-1]","			if idx < len(session.requests)-1 {\n				session.requests[idx] = session.requests[len(session.requests)-1]\n				session.requests = session.requests[:len(session.requests)-1]\n			} else {\n				session.requests = session.requests[1:]\n			}")],
'''package go808
import ("testing";"gitee.com/coco/go808/protocol")
func TestDemo(t *testing.T) {
	s := &Session{}
	called := map[uint16]int{}
	for i := uint16(1); i <= 3; i++ {
		i := i
		s.addRequestContext(requestContext{msgID: 0x8100 + i, serialNo: i, callback: func(*protocol.Message) { called[i]++ }})
	}
	for _, n := range []uint16{3, 2, 1, 3} {
		s.message(&protocol.Message{Header: protocol.Header{MsgID: protocol.MsgT808_0x0001}, Body: &protocol.T808_0x0001{ReplyMsgSerialNo: n}})
	}
	for i := uint16(1); i <= 3; i++ { if called[i] != 1 { t.Fatal(called) } }
}
''',pkg="root")
seed("S16","C17","an update for a key that is pending and not the earliest, after other keys were queued","after a swap in the heap only one element knows its position, so that a later update or removal hits another key",
[(T,"	q[i].Index, q[j].Index = i, j","	q[i].Index = i")],
'''package go808
import ("testing";"sync";"fmt")
func TestDemo(t *testing.T) {
	timer := NewCountdownTimer(1000, func(string) {})
	var once sync.Once
	_ = &once
	for i := 0; i < 20; i++ {
		timer.SetExpiration(int64(1000 - 7*((i*13)%20)))
		timer.Update(fmt.Sprint(i))
	}
	for i := 0; i < 20; i++ {
		func() {
			defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
			timer.Remove(fmt.Sprint(i))
		}()
		timer.mutex.Lock()
		if len(*timer.q) != 19-i || len(timer.mapper) != 19-i { t.Fatal(i, len(*timer.q), len(timer.mapper)) }
		for k, e := range timer.mapper {
			found := false
			for _, x := range *timer.q { if x == e && x.Key == k { found = true } }
			if !found { t.Fatal("key ", k, " is no longer queued") }
		}
		timer.mutex.Unlock()
	}
}
''',pkg="root")
seed("S17","C20","a session id beyond 32 bits","the read timeout of a session with a large id closes nothing",
[(SV,"	sessionID, err := strconv.ParseUint(key, 10, 64)","	sessionID, err := strconv.ParseUint(key, 10, 32)")],
'''package go808
import ("testing";"net";"github.com/funny/link")
func TestDemo(t *testing.T) {
	s, err := NewServer(Options{})
	if err != nil { t.Fatal(err) }
	a, b := net.Pipe()
	defer b.Close()
	c, err := (Protocol{}).NewCodec(a)
	if err != nil { t.Fatal(err) }
	ls := link.NewSession(c, 0)
	sess := newSession(s, ls)
	s.sessions[1<<33] = sess
	s.handleReadTimeout("8589934592")
	if !ls.IsClosed() { t.Fatal("still open") }
}
''',pkg="root")
seed("S18","C12","the last second of a leap year","the last second of a leap year is written as the second before",
[(L,"	t = time.Unix(t.Unix(), 0)\n","	t = dropLeapSecond(time.Unix(t.Unix(), 0))\n"),(L,"// 转为BCD时间\n","// 忽略闰秒\nfunc dropLeapSecond(t time.Time) time.Time {\n	if t.YearDay() == 366 && t.Hour() == 23 && t.Minute() == 59 && t.Second() == 59 {\n		t = t.Add(-time.Second)\n	}\n	return t\n}\n\n// 转为BCD时间\n")],
'''package protocol
import ("testing";"time")
func TestDemo(t *testing.T) {
	for y := 2000; y < 2100; y += 4 {
		x := time.Date(y, 12, 31, 23, 59, 59, 0, time.Local)
		g, err := fromBCDTime(toBCDTime(x))
		if err != nil || !g.Equal(x) { t.Fatal(x, g, err) }
	}
}
''')
seed("S19","C19","a sub-packet that does not complete its upload","only the last sub-packet of an upload is acknowledged",
[(SH,"		session.Reply(&message, protocol.T808_0x8001ResultSuccess)\n		if !multipartFile.IsFull() {\n			continue\n		}","		if !multipartFile.IsFull() {\n			continue\n		}\n		session.Reply(&message, protocol.T808_0x8001ResultSuccess)")],
'''package go808
import ("testing";"net";"time";"bytes";"github.com/funny/link";"gitee.com/coco/go808/protocol")
func TestDemo(t *testing.T) {
	s, err := NewServer(Options{AutoMergePacket: true})
	if err != nil { t.Fatal(err) }
	a, b := net.Pipe()
	c, err := (Protocol{}).NewCodec(a)
	if err != nil { t.Fatal(err) }
	go s.handler.HandleSession(link.NewSession(c, 0))
	e := &protocol.T808_0x0801{MediaID: 99}
	e.SetReader(closer{bytes.NewReader([]byte("abc"))})
	m := protocol.Message{Header: protocol.Header{IccID: 424242, MsgSerialNo: 6, Packet: &protocol.Packet{Sum: 2, Seq: 1}}, Body: e}
	d, err := m.Encode()
	if err != nil { t.Fatal(err) }
	b.SetDeadline(time.Now().Add(5 * time.Second))
	if _, err := b.Write(d); err != nil { t.Fatal(err) }
	cc, _ := (Protocol{}).NewCodec(b)
	got, err := cc.Receive()
	if err != nil { t.Fatal(err) }
	r, ok := got.(protocol.Message).Body.(*protocol.T808_0x8001)
	if !ok || r.ReplyMsgSerialNo != 6 || r.Result != protocol.T808_0x8001ResultSuccess { t.Fatal(got) }
}
type closer struct{ *bytes.Reader }
func (closer) Close() error { return nil }
''',pkg="root")
