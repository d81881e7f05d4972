B='protocol/bufio.go'; M='protocol/message.go'; HP='protocol/helpers.go'; S='session.go'; T='timer.go'; R='protocol.go'
GUARD='''	if reader.r.Len() < %d {
		return %s, io.ErrUnexpectedEOF
	}

	var buf [%d]byte
	n, err := reader.r.Read(buf[:])
	if err != nil {
		return %s, err
	}
	if n != len(buf) {
		return %s, io.ErrUnexpectedEOF
	}
'''
def guard(n,z): return GUARD%(n,z,n,z,z)
def fixed(n,z): return '''	var buf [%d]byte
	if err := reader.readFixed(buf[:]); err != nil {
		return %s, err
	}
'''%(n,z)
helper='''// 读取固定长度数据
func (reader *Reader) readFixed(buf []byte) error {
	if reader.r.Len() < len(buf) {
		return io.ErrUnexpectedEOF
	}
	_, err := io.ReadFull(reader.r, buf)
	return err
}

func (reader *Reader) ReadString('''
quiet("rd-fixed","C03 C04 C01 C07",[(B,guard(2,"0"),fixed(2,"0")),(B,guard(4,"0"),fixed(4,"0")),(B,guard(6,"time.Time{}"),fixed(6,"time.Time{}")),(B,"func (reader *Reader) ReadString(",helper)])
def viaread(n,z): return '''	buf, err := reader.Read(%d)
	if err != nil {
		return %s, err
	}
'''%(n,z)
quiet("rd-viaread","C03 C04 C01 C07",[(B,guard(2,"0"),viaread(2,"0")),(B,guard(4,"0"),viaread(4,"0")),(B,guard(6,"time.Time{}"),viaread(6,"time.Time{}")),
  (B,"return binary.BigEndian.Uint16(buf[:])","return binary.BigEndian.Uint16(buf)"),(B,"return binary.BigEndian.Uint32(buf[:])","return binary.BigEndian.Uint32(buf)"),(B,"return fromBCDTime(buf[:])","return fromBCDTime(buf)")])
src=open('/repo/'+B).read()
i=src.index('type Reader struct'); j=src.index('func (reader *Reader) ReadString(')
posreader='''type Reader struct {
	d   []byte
	pos int
}

func NewReader(data []byte) Reader {
	return Reader{d: data}
}

func (reader *Reader) Len() int {
	return len(reader.d) - reader.pos
}

func (reader *Reader) Read(size ...int) ([]byte, error) {
	num := reader.Len()
	if len(size) > 0 {
		num = size[0]
	}
	if num > reader.Len() {
		return nil, io.ErrUnexpectedEOF
	}
	buf := reader.d[reader.pos : reader.pos+num]
	reader.pos += num
	return buf, nil
}

func (reader *Reader) ReadByte() (byte, error) {
	if reader.pos >= len(reader.d) {
		return 0, io.EOF
	}
	b := reader.d[reader.pos]
	reader.pos++
	return b, nil
}

func (reader *Reader) ReadUint16() (uint16, error) {
	buf, err := reader.Read(2)
	if err != nil {
		return 0, err
	}
	return binary.BigEndian.Uint16(buf), nil
}

func (reader *Reader) ReadUint32() (uint32, error) {
	buf, err := reader.Read(4)
	if err != nil {
		return 0, err
	}
	return binary.BigEndian.Uint32(buf), nil
}

func (reader *Reader) ReadBcdTime() (time.Time, error) {
	buf, err := reader.Read(6)
	if err != nil {
		return time.Time{}, err
	}
	return fromBCDTime(buf)
}

'''
quiet("rd-pos","C01 C03 C04 C07 C10 C13",[(B,None,src[:i]+posreader+src[j:])])
quiet("wr-slice","C01 C02 C05 C07 C10 C13",[(B,"	b *bytes.Buffer\n","	b []byte\n"),(B,"return Writer{b: bytes.NewBuffer(nil)}","return Writer{}"),(B,"return writer.b.Bytes()","return writer.b"),
 (B,"writer.b.Write(p)","writer.b = append(writer.b, p...)",2),(B,"writer.b.Write(p[:size[0]])","writer.b = append(writer.b, p[:size[0]]...)"),(B,"writer.b.WriteByte(0)","writer.b = append(writer.b, 0)"),(B,"writer.b.WriteByte(b)","writer.b = append(writer.b, b)"),
 (B,"writer.b.Write(buf[:])","writer.b = append(writer.b, buf[:]...)",2),(B,"writer.b.Write(toBCDTime(t))","writer.b = append(writer.b, toBCDTime(t)...)")])
bit='protocol/bit.go'
import os
if not os.path.exists('/repo/'+bit):
    import subprocess; bit=subprocess.run("grep -l 'func GetBitByte' /repo/protocol/*.go",shell=True,capture_output=True,text=True).stdout.strip().replace('/repo/','')
quiet("bit-mask","C11 C07",[(bit,"return value&(1<<offset) > 0","mask := 1 << uint(offset)\n	return int(value)&mask != 0",3),(bit,"		*value &= ^(1 << offset)","		*value &^= 1 << offset",3)])
quiet("bit-shift","C11",[(bit,"return value&(1<<offset) > 0","return (value>>uint(offset))&1 == 1",3)])
quiet("geo-exp","C11 C01 C04",[(HP,"	div := decimal.NewFromFloat(1000000)\n	fLat := decimal.NewFromInt(int64(lat)).Div(div)\n	fLon := decimal.NewFromInt(int64(lng)).Div(div)\n","	fLat := decimal.New(int64(lat), -6)\n	fLon := decimal.New(int64(lng), -6)\n"),(HP,"return fLat.Truncate(6), fLon.Truncate(6)","return fLat, fLon")])
X2='protocol/extra/0x12.go'
quiet("x12-index","C10",[(X2,'''	var temp [4]byte
	buffer := bytes.NewBuffer(nil)
	buffer.WriteByte(value.Type)

	binary.BigEndian.PutUint32(temp[:], value.AreaID)
	buffer.Write(temp[:])

	buffer.WriteByte(value.Direction)

	extra.serialized = buffer.Bytes()
''','''	data := make([]byte, 6)
	data[0] = value.Type
	binary.BigEndian.PutUint32(data[1:], value.AreaID)
	data[5] = value.Direction
	extra.serialized = data
'''),(X2,'	"bytes"\n','')])
X3='protocol/extra/0x13.go'
quiet("x13-append","C10",[(X3,'''	var temp [4]byte
	buffer := bytes.NewBuffer(nil)
	binary.BigEndian.PutUint32(temp[:4], value.RoadID)
	buffer.Write(temp[:])

	binary.BigEndian.PutUint16(temp[:2], value.Duration)
	buffer.Write(temp[:2])

	buffer.WriteByte(value.Result)

	extra.serialized = buffer.Bytes()
''','''	data := binary.BigEndian.AppendUint32(nil, value.RoadID)
	data = binary.BigEndian.AppendUint16(data, value.Duration)
	extra.serialized = append(data, value.Result)
'''),(X3,'	"bytes"\n','')])
A='protocol/t808_0x8302.go'
quiet("ask-pair","C01 C02 C03 C04",[(A,'''	for {
		if reader.Len() == 0 {
			break
		}

		var answer T808_0x8302_Answer

		// 读取答案ID
		answer.ID, err = reader.ReadByte()
		if err != nil {
			return 0, err
		}

		// 读取内容长度
		size, err := reader.ReadByte()
		if err != nil {
			return 0, err
		}

		// 读取事件内容
		answer.Content, err = reader.ReadString(int(size))
		if err != nil {
			return 0, err
		}
		entity.CandidateAnswers''','''	for reader.Len() > 0 {
		answer, err := readAnswer(&reader)
		if err != nil {
			return 0, err
		}
		entity.CandidateAnswers'''),(A,"func (entity *T808_0x8302) Encode()",'''func readAnswer(reader *Reader) (T808_0x8302_Answer, error) {
	id, err := reader.ReadByte()
	if err != nil {
		return T808_0x8302_Answer{}, err
	}
	size, err := reader.ReadByte()
	if err != nil {
		return T808_0x8302_Answer{}, err
	}
	content, err := reader.ReadString(int(size))
	if err != nil {
		return T808_0x8302_Answer{}, err
	}
	return T808_0x8302_Answer{ID: id, Content: content}, nil
}

func (entity *T808_0x8302) Encode()''')])
quiet("dec-typeswitch","C05 C09",[(M,'''	entityPacket, ok := interface{}(entity).(EntityPacket)
	if !ok {
		count, err := entity.Decode(data)
		if err != nil {
			return nil, 0, err
		}
		return entity, count, nil
	}

	err := entityPacket.DecodePacket(data)
	if err != nil {
		return nil, 0, err
	}
	return entityPacket, len(data), nil
''','''	switch e := entity.(type) {
	case EntityPacket:
		if err := e.DecodePacket(data); err != nil {
			return nil, 0, err
		}
		return entity, len(data), nil
	default:
		count, err := e.Decode(data)
		if err != nil {
			return nil, 0, err
		}
		return e, count, nil
	}
''')])
quiet("tm-locked","C17",[(T,'''	timer.mutex.Lock()
	defer timer.mutex.Unlock()
	timer.remove(key)
	heap.Push(timer.q, &e)
	timer.mapper[key] = &e
''','''	timer.locked(func() {
		timer.remove(key)
		heap.Push(timer.q, &e)
		timer.mapper[key] = &e
	})
'''),(T,'''	timer.mutex.Lock()
	defer timer.mutex.Unlock()
	timer.remove(key)
}
''','''	timer.locked(func() { timer.remove(key) })
}

func (timer *CountdownTimer) locked(f func()) {
	timer.mutex.Lock()
	defer timer.mutex.Unlock()
	f()
}
''')])
quiet("ss-locked","C16",[(S,'''	session.mux.Lock()
	defer session.mux.Unlock()

	for idx, item := range session.requests {
		if item.msgID == ctx.msgID {
			session.requests[idx] = ctx
			return
		}
	}
	session.requests = append(session.requests, ctx)
''','''	session.withRequests(func(reqs []requestContext) []requestContext {
		for idx := range reqs {
			if reqs[idx].msgID == ctx.msgID {
				reqs[idx] = ctx
				return reqs
			}
		}
		return append(reqs, ctx)
	})
'''),(S,'''// 取出请求上下文
''','''func (session *Session) withRequests(f func([]requestContext) []requestContext) {
	session.mux.Lock()
	defer session.mux.Unlock()
	session.requests = f(session.requests)
}

// 取出请求上下文
''')])
quiet("pc-encode","C05 C08 C14",[(R,'''	var err error
	var data []byte
	if codec.publicKey == nil || !message.Header.Property.IsEnableEncrypt() {
		data, err = message.Encode()
	} else {
		data, err = message.Encode(codec.publicKey)
	}
	if err != nil {''','''	data, err := codec.encode(&message)
	if err != nil {'''),(R,"// 接收消息\nfunc (codec *ProtocolCodec) Receive",'''func (codec *ProtocolCodec) encode(message *protocol.Message) ([]byte, error) {
	if message.Header.Property.IsEnableEncrypt() && codec.publicKey != nil {
		return message.Encode(codec.publicKey)
	}
	return message.Encode()
}

// 接收消息
func (codec *ProtocolCodec) Receive''')])
quiet("oaep-const","C14",[(HP,'''	buffer := bytes.NewBuffer(nil)
	limit := pub.Size() - 2*hash.Size() - 2
''','''	var buffer bytes.Buffer
	const overhead = 2
	limit := pub.Size() - overhead - hash.Size() - hash.Size()
''')])
quiet("geo-negone","C11 C04",[(HP,"fLat = decimal.Zero.Sub(fLat)","fLat = fLat.Neg()"),(HP,"fLon = decimal.Zero.Sub(fLon)","fLon = fLon.Mul(decimal.NewFromInt(-1))")])
