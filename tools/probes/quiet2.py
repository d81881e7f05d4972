B="protocol/bufio.go"
H="protocol/helpers.go"
quiet("writer-pad-make","C02 C13",[(B,'''		end := size[0] - len(p)
		for i := 0; i < end; i++ {
			writer.b.WriteByte(0)
		}
''','''		writer.b.Write(make([]byte, size[0]-len(p)))
''')])
quiet("writer-pad-early","C02",[(B,'''	if len(p) >= size[0] {
		writer.b.Write(p[:size[0]])
	} else {
		writer.b.Write(p)
		end := size[0] - len(p)
		for i := 0; i < end; i++ {
			writer.b.WriteByte(0)
		}
	}
	return writer
''','''	n := size[0]
	if len(p) > n {
		p = p[:n]
	}
	writer.b.Write(p)
	for i := len(p); i < n; i++ {
		writer.b.WriteByte(0)
	}
	return writer
''')])
quiet("writer-u16-bytes","C02 C05",[(B,'''	var buf [2]byte
	binary.BigEndian.PutUint16(buf[:], n)
	writer.b.Write(buf[:])
	return writer
''','''	writer.b.WriteByte(byte(n >> 8))
	writer.b.WriteByte(byte(n))
	return writer
''')])
quiet("reader-u16-slice","C03 C04 C06",[(B,'''	if reader.r.Len() < 2 {
		return 0, io.ErrUnexpectedEOF
	}

	var buf [2]byte
	n, err := reader.r.Read(buf[:])
	if err != nil {
		return 0, err
	}
	if n != len(buf) {
		return 0, io.ErrUnexpectedEOF
	}
	return binary.BigEndian.Uint16(buf[:]), nil
''','''	buf, err := reader.Read(2)
	if err != nil {
		return 0, err
	}
	return binary.BigEndian.Uint16(buf), nil
''')])
quiet("reader-u32-readfull","C03 C04",[(B,'''	var buf [4]byte
	n, err := reader.r.Read(buf[:])
	if err != nil {
		return 0, err
	}
	if n != len(buf) {
		return 0, io.ErrUnexpectedEOF
	}
''','''	var buf [4]byte
	if _, err := io.ReadFull(reader.r, buf[:]); err != nil {
		return 0, err
	}
''')])
quiet("reader-u32-shift","C03 C04",[(B,'''	return binary.BigEndian.Uint32(buf[:]), nil''','''	return uint32(buf[0])<<24 | uint32(buf[1])<<16 | uint32(buf[2])<<8 | uint32(buf[3]), nil''')])
quiet("bcd-range","C12 C05",[(H,'''	for i := 0; i < len(data); i++ {
		buf = append(buf, data[i]&0xf0>>4+'0')
		buf = append(buf, data[i]&0x0f+'0')
	}
''','''	for _, b := range data {
		buf = append(buf, b>>4+'0', b&0x0f+'0')
	}
''')])
quiet("bcd-pad-helper","C12 C05",[(H,'''	for len(ignorePadding) == 0 || !ignorePadding[0] {
		if len(data) == 0 {
			return ""
		}
		if data[0] != 0 {
			break
		}
		data = data[1:]
	}
''','''	keep := len(ignorePadding) > 0 && ignorePadding[0]
	if !keep {
		for len(data) > 0 && data[0] == 0 {
			data = data[1:]
		}
		if len(data) == 0 {
			return ""
		}
	}
'''),(H,'''	if len(ignorePadding) == 0 || !ignorePadding[0] {
		for idx''','''	if !keep {
		for idx''')])
quiet("strbcd-loop","C12 C05",[(H,'''	for i := 0; i < len(bcd); i++ {
		high := data[i*2] - '0'
		low := data[i*2+1] - '0'
		bcd[i] = (high << 4) | low
	}
''','''	for i := range bcd {
		bcd[i] = (data[2*i]-'0')<<4 | (data[2*i+1] - '0')
	}
''')])
quiet("strbcd-append","C12",[(H,'''	bcd := make([]byte, len(s)/2)
	for i := 0; i < len(bcd); i++ {
		high := data[i*2] - '0'
		low := data[i*2+1] - '0'
		bcd[i] = (high << 4) | low
	}
''','''	bcd := make([]byte, 0, len(s)/2)
	for i := 0; i < len(data); i += 2 {
		high := data[i] - '0'
		low := data[i+1] - '0'
		bcd = append(bcd, (high<<4)|low)
	}
''')])
quiet("bcdtime-inline","C12",[(H,'''	t = time.Unix(t.Unix(), 0)
	s := t.Format("20060102150405")[2:]
	return stringToBCD(s, 6)
''','''	local := time.Unix(t.Unix(), 0)
	return stringToBCD(local.Format("060102150405"), 6)
''')])
quiet("frombcd-direct","C12",[(H,'''	t, err := time.ParseInLocation(
		"20060102150405", "20"+bcdToString(bcd, true), time.Local)
	if err != nil {
		return time.Time{}, err
	}
	return t, nil
''','''	text := "20" + bcdToString(bcd, true)
	return time.ParseInLocation("20060102150405", text, time.Local)
''')])
quiet("geo-neg","C11",[(H,"		fLat = decimal.Zero.Sub(fLat)","		fLat = fLat.Neg()"),(H,"		fLon = decimal.Zero.Sub(fLon)","		fLon = fLon.Neg()")])
quiet("geo-helper","C11",[(H,'''	div := decimal.NewFromFloat(1000000)
	fLat := decimal.NewFromInt(int64(lat)).Div(div)
	fLon := decimal.NewFromInt(int64(lng)).Div(div)
	if south {
		fLat = decimal.Zero.Sub(fLat)
	}
	if west {
		fLon = decimal.Zero.Sub(fLon)
	}
	return fLat.Truncate(6), fLon.Truncate(6)
}
''','''	return toDegrees(lat, south), toDegrees(lng, west)
}

func toDegrees(value uint32, negative bool) decimal.Decimal {
	d := decimal.NewFromInt(int64(value)).Div(decimal.NewFromFloat(1000000))
	if negative {
		d = decimal.Zero.Sub(d)
	}
	return d.Truncate(6)
}
''')])
quiet("split-index","C14",[(H,'''	for len(data) >= limit {
		chunk, data = data[:limit], data[limit:]
		chunks = append(chunks, chunk)
	}
	if len(data) > 0 {
		chunks = append(chunks, data[:len(data)])
	}
	return chunks
''','''	for len(data) > 0 {
		n := limit
		if len(data) < n {
			n = len(data)
		}
		chunk, data = data[:n], data[n:]
		chunks = append(chunks, chunk)
	}
	return chunks
''')])
quiet("oaep-inline","C14",[(H,'''	chunks := bytesSplit(msg, limit)
	for _, chunk := range chunks {
		ciphertext''','''	for len(msg) > 0 {
		chunk := msg
		if len(chunk) > limit {
			chunk = chunk[:limit]
		}
		msg = msg[len(chunk):]
		ciphertext''')])
quiet("oaep-append","C14",[(H,'''	buffer := bytes.NewBuffer(nil)
	chunks := bytesSplit(ciphertext, priv.Size())
''','''	var plain []byte
	chunks := bytesSplit(ciphertext, priv.Size())
'''),(H,'''		buffer.Write(plaintext)
	}
	return buffer.Bytes(), nil''','''		plain = append(plain, plaintext...)
	}
	return plain, nil''')])
quiet("tostr-idx","C01 C04",[(H,'''	n := bytes.IndexByte(data, 0)
	if n == -1 {
		return string(data)
	}
	return string(data[:n])
''','''	if n := bytes.IndexByte(data, 0); n >= 0 {
		data = data[:n]
	}
	return string(data)
''')])
quiet("tostr-loop","C04",[(H,'''	n := bytes.IndexByte(data, 0)
	if n == -1 {
		return string(data)
	}
	return string(data[:n])
''','''	for i, b := range data {
		if b == 0 {
			return string(data[:i])
		}
	}
	return string(data)
''')])
C="protocol.go"
quiet("codec-indexbyte","C08",[(C,'''		i := 0
		for ; i < len(data); i++ {
			if data[i] == protocol.PrefixID {
				break
			}
		}
		codec''','''		i := bytes.IndexByte(data, protocol.PrefixID)
		if i < 0 {
			i = len(data)
		}
		codec'''),(C,'''	end := 1
	for ; end < len(data); end++ {
		if data[end] == protocol.PrefixID {
			break
		}
	}
	if end == len(data) {
		return protocol.Message{}, false, nil
	}
''','''	end := bytes.IndexByte(data[1:], protocol.PrefixID)
	if end < 0 {
		return protocol.Message{}, false, nil
	}
	end++
''')])
quiet("codec-helper","C08",[(C,'''	end := 1
	for ; end < len(data); end++ {
		if data[end] == protocol.PrefixID {
			break
		}
	}
	if end == len(data) {
''','''	end := indexFlag(data, 1)
	if end == len(data) {
'''),(C,'''		i := 0
		for ; i < len(data); i++ {
			if data[i] == protocol.PrefixID {
				break
			}
		}
		codec.bufferReceiving.Next(i)
''','''		codec.bufferReceiving.Next(indexFlag(data, 0))
'''),(C,'''// 从缓冲区读取
''','''func indexFlag(data []byte, from int) int {
	for i := from; i < len(data); i++ {
		if data[i] == protocol.PrefixID {
			return i
		}
	}
	return len(data)
}

// 从缓冲区读取
''')])
quiet("codec-loop-merge","C08",[(C,'''	message, ok, err := codec.readFromBuffer()
	if ok {
		return message, nil
	}
	if err != nil {
		return nil, err
	}

	var buffer [128]byte
	for {
		count, err := io.ReadAtLeast(codec.r, buffer[:], 1)
		if err != nil {
			return nil, err
		}
		codec.bufferReceiving.Write(buffer[:count])

		if codec.bufferReceiving.Len() == 0 {
			continue
		}
		if codec.bufferReceiving.Len() > 0xffff {
			return nil, errors.ErrBodyTooLong
		}

		message, ok, err := codec.readFromBuffer()
		if ok {
			return message, nil
		}
		if err != nil {
			return nil, err
		}
	}
''','''	var buffer [128]byte
	for {
		message, ok, err := codec.readFromBuffer()
		if err != nil {
			return nil, err
		}
		if ok {
			return message, nil
		}

		count, err := io.ReadAtLeast(codec.r, buffer[:], 1)
		if err != nil {
			return nil, err
		}
		codec.bufferReceiving.Write(buffer[:count])
		if codec.bufferReceiving.Len() > 0xffff {
			return nil, errors.ErrBodyTooLong
		}
	}
''')])
quiet("codec-next-first","C08",[(C,'''	var message protocol.Message
	if err := message.Decode(data[:end+1], codec.privateKey); err != nil {
		codec.bufferReceiving.Next(end + 1)
''','''	var message protocol.Message
	err := message.Decode(data[:end+1], codec.privateKey)
	codec.bufferReceiving.Next(end + 1)
	if err != nil {
'''),(C,'''	codec.bufferReceiving.Next(end + 1)

	log''','''
	log''')])
quiet("codec-frame-next","C08",[(C,'''	var message protocol.Message
	if err := message.Decode(data[:end+1], codec.privateKey); err != nil {
		codec.bufferReceiving.Next(end + 1)
''','''	frame := codec.bufferReceiving.Next(end + 1)
	var message protocol.Message
	if err := message.Decode(frame, codec.privateKey); err != nil {
'''),(C,'''	codec.bufferReceiving.Next(end + 1)

	log''','''
	log''')])
quiet("codec-send-key","C14",[(C,'''	var err error
	var data []byte
	if codec.publicKey == nil || !message.Header.Property.IsEnableEncrypt() {
		data, err = message.Encode()
	} else {
		data, err = message.Encode(codec.publicKey)
	}
	if err''','''	var keys []*rsa.PublicKey
	if codec.publicKey != nil && message.Header.Property.IsEnableEncrypt() {
		keys = append(keys, codec.publicKey)
	}
	data, err := message.Encode(keys...)
	if err''')])
