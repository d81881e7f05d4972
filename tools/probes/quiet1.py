# behaviour-preserving edits of message.go, header.go, property.go, bufio.go, helpers.go, protocol.go
M="protocol/message.go"
quiet("enc-split-helper","C05 C07 C14",[(M,'''		body, err = message.Body.Encode()
		if err != nil {
			return nil, err
		}

		if len(key) > 0 && key[0] != nil {
			message.Header.Property.enableEncrypt()
			body, err = EncryptOAEP(sha1.New(), key[0], body, nil)
			if err != nil {
				log.WithFields(log.Fields{
					"id":     fmt.Sprintf("0x%x", message.Header.MsgID),
					"reason": err,
				}).Warn("[JT/T808] encrypt body failed")
				return nil, err
			}
		}
	}
''','''		if body, err = message.encodeBody(key); err != nil {
			return nil, err
		}
	}
'''),(M,'''// 写入二进制数据
''','''func (message *Message) encodeBody(key []*rsa.PublicKey) ([]byte, error) {
	raw, err := message.Body.Encode()
	if err != nil {
		return nil, err
	}
	if len(key) == 0 || key[0] == nil {
		return raw, nil
	}
	message.Header.Property.enableEncrypt()
	sealed, err := EncryptOAEP(sha1.New(), key[0], raw, nil)
	if err != nil {
		log.WithFields(log.Fields{
			"id":     fmt.Sprintf("0x%x", message.Header.MsgID),
			"reason": err,
		}).Warn("[JT/T808] encrypt body failed")
		return nil, err
	}
	return sealed, nil
}

// 写入二进制数据
''')])
quiet("write-switch","C05 C07",[(M,'''		if b == PrefixID {
			buffer.WriteByte(EscapeByte)
			buffer.WriteByte(EscapeByteSufix2)
		} else if b == EscapeByte {
			buffer.WriteByte(EscapeByte)
			buffer.WriteByte(EscapeByteSufix1)
		} else {
			buffer.WriteByte(b)
		}
''','''		switch b {
		case PrefixID:
			buffer.Write([]byte{EscapeByte, EscapeByteSufix2})
		case EscapeByte:
			buffer.Write([]byte{EscapeByte, EscapeByteSufix1})
		default:
			buffer.WriteByte(b)
		}
''')])
quiet("write-index","C05",[(M,'''	for _, b := range data {
		if b == PrefixID {''','''	for i := 0; i < len(data); i++ {
		b := data[i]
		if b == PrefixID {''')])
quiet("checksum-split","C05 C07",[(M,'''	for _, b := range data {
		checkSum = checkSum ^ b
		if b != PrefixID && b != EscapeByte {
			count++
		} else {
			count += 2
		}
	}
''','''	for _, b := range data {
		checkSum ^= b
		count++
		if b == PrefixID || b == EscapeByte {
			count++
		}
	}
''')])
quiet("checksum-two-loops","C05 C07",[(M,'''	for _, b := range data {
		checkSum = checkSum ^ b
		if b != PrefixID && b != EscapeByte {
			count++
		} else {
			count += 2
		}
	}
''','''	count += len(data)
	for _, b := range data {
		if b == PrefixID || b == EscapeByte {
			count++
		}
	}
	for _, b := range data {
		checkSum ^= b
	}
''')])
quiet("enc-no-grow","C05",[(M,"	buffer.Grow(count + 2)\n",""),(M,"	checkSum, count = message.computeChecksum(header","	checkSum, _ = message.computeChecksum(header"),])
quiet("enc-slice","C05 C07",[(M,'''	message.write(buffer, header).write(buffer, body).write(buffer, []byte{checkSum})
''','''	for _, part := range [][]byte{header, body, {checkSum}} {
		message.write(buffer, part)
	}
''')])
quiet("enc-checksum-order","C05 C06",[(M,'''	checkSum, count = message.computeChecksum(body, checkSum, count)

''',''),(M,'''	checkSum, count = message.computeChecksum(header, checkSum, count)
''','''	checkSum, count = message.computeChecksum(header, checkSum, count)
	checkSum, count = message.computeChecksum(body, checkSum, count)
''')])
quiet("dec-unescape-helper","C05 C06 C09",[(M,'''	checkSum := byte(0x00)
	buffer := make([]byte, 0, len(data))
	for i := 0; i < len(data); {
		b := data[i]
		if b != EscapeByte {
			checkSum = checkSum ^ b
			buffer = append(buffer, b)
			i++
			continue
		}

		if i+1 >= len(data) {
			return errors.ErrInvalidMessage
		}

		b = data[i+1]
		if b == EscapeByteSufix1 {
			checkSum = checkSum ^ EscapeByte
			buffer = append(buffer, EscapeByte)
		} else if b == EscapeByteSufix2 {
			checkSum = checkSum ^ PrefixID
			buffer = append(buffer, PrefixID)
		} else {
			return errors.ErrInvalidMessage
		}
		i += 2
	}
''','''	buffer, checkSum, err := unescape(data)
	if err != nil {
		return err
	}
'''),(M,'''	err := header.Decode(buffer)
''','''	err = header.Decode(buffer)
'''),(M,'''// 写入二进制数据
''','''func unescape(data []byte) ([]byte, byte, error) {
	var sum byte
	out := make([]byte, 0, len(data))
	for i := 0; i < len(data); i++ {
		b := data[i]
		if b == EscapeByte {
			i++
			if i >= len(data) {
				return nil, 0, errors.ErrInvalidMessage
			}
			switch data[i] {
			case EscapeByteSufix1:
				b = EscapeByte
			case EscapeByteSufix2:
				b = PrefixID
			default:
				return nil, 0, errors.ErrInvalidMessage
			}
		}
		sum ^= b
		out = append(out, b)
	}
	return out, sum, nil
}

// 写入二进制数据
''')])
quiet("dec-unescape-all","C05 C06 C09",[(M,'''	sum := data[len(data)-1]
	if len(data) < 2 || data[len(data)-2] != EscapeByte {
		if sum == EscapeByte {
			return errors.ErrInvalidMessage
		}
		data = data[:len(data)-1]
	} else {
		if (data[len(data)-1]) == EscapeByteSufix1 {
			sum = EscapeByte
		} else if data[len(data)-1] == EscapeByteSufix2 {
			sum = PrefixID
		} else {
			return errors.ErrInvalidMessage
		}
		data = data[:len(data)-2]
	}
''','''	last := len(data) - 1
	sum := data[last]
	escaped := last > 0 && data[last-1] == EscapeByte
	switch {
	case !escaped && sum == EscapeByte:
		return errors.ErrInvalidMessage
	case !escaped:
		data = data[:last]
	case sum == EscapeByteSufix1:
		sum, data = EscapeByte, data[:last-1]
	case sum == EscapeByteSufix2:
		sum, data = PrefixID, data[:last-1]
	default:
		return errors.ErrInvalidMessage
	}
''')])
quiet("dec-xor-after","C05 C06",[(M,'''			checkSum = checkSum ^ b
			buffer''','''			buffer'''),(M,'''			checkSum = checkSum ^ EscapeByte
''',''),(M,'''			checkSum = checkSum ^ PrefixID
''',''),(M,'''	// 检查校验和
''','''	for _, b := range buffer {
		checkSum ^= b
	}

	// 检查校验和
''')])
quiet("dec-header-size","C05 C06 C09",[(M,'''	if !header.Property.IsEnablePacket() {
		buffer = buffer[MessageHeaderSize:]
	} else {
		buffer = buffer[MessageHeaderSize+4:]
	}
''','''	size := MessageHeaderSize
	if header.Property.IsEnablePacket() {
		size += 4
	}
	buffer = buffer[size:]
''')])
quiet("dec-early-return","C05 C06 C09 C14",[(M,'''		}).Warn("[JT/T808] body length mismatch")
	} else {
		if header''','''		}).Warn("[JT/T808] body length mismatch")
		message.Header = header
		return nil
	}
	{
		if header''')])
quiet("dec-decode-helper","C09 C05",[(M,'''	entity := creator()
	entityPacket, ok := interface{}(entity).(EntityPacket)
	if !ok {
		count, err := entity.Decode(data)
		if err != nil {
			return nil, 0, err
		}
		return entity, count, nil
	}

	err := entityPacket.DecodePacket(data)
	if err != nil {
		return nil, 0, err
	}
	return entityPacket, len(data), nil
''','''	entity := creator()
	if entityPacket, ok := entity.(EntityPacket); ok {
		if err := entityPacket.DecodePacket(data); err != nil {
			return nil, 0, err
		}
		return entity, len(data), nil
	}
	count, err := entity.Decode(data)
	if err != nil {
		return nil, 0, err
	}
	return entity, count, nil
''')])
H="protocol/header.go"
quiet("hdr-enc-reorder","C05 C07",[(H,'''	writer := NewWriter()

	// 写入消息ID
	writer.WriteUint16(uint16(header.MsgID))

	// 写入消息体属性
	if header.Packet != nil {
		header.Property.enablePacket()
	} else if header.Property.IsEnablePacket() {
		return nil, errors.ErrInvalidHeader
	}
	writer''','''	if header.Packet == nil {
		if header.Property.IsEnablePacket() {
			return nil, errors.ErrInvalidHeader
		}
	} else {
		header.Property.enablePacket()
	}

	writer := NewWriter()

	// 写入消息ID
	writer.WriteUint16(uint16(header.MsgID))
	writer'''),(H,'''	if header.Property.IsEnablePacket() {
		writer.WriteUint16(header.Packet.Sum)
		writer.WriteUint16(header.Packet.Seq)
	}
''','''	if packet := header.Packet; packet != nil {
		writer.WriteUint16(packet.Sum).WriteUint16(packet.Seq)
	}
''')])
quiet("hdr-dec-binary","C05 C06 C07",[(H,'''	reader := NewReader(data)

	// 读取消息ID
	msgID, err := reader.ReadUint16()
	if err != nil {
		return errors.ErrInvalidHeader
	}

	// 读取消息体属性
	property, err := reader.ReadUint16()
	if err != nil {
		return errors.ErrInvalidHeader
	}
''','''	msgID := binary.BigEndian.Uint16(data[0:2])
	property := binary.BigEndian.Uint16(data[2:4])
	reader := NewReader(data[4:])
'''),(H,'''import (
''','''import (
	"encoding/binary"
''')])
quiet("hdr-icc-fold","C05 C06 C07",[(H,'''	iccID, err := strconv.ParseUint(bcdToString(temp, true), 10, 64)
	if err != nil {
		return err
	}
''','''	text := bcdToString(temp, true)
	iccID, err := strconv.ParseUint(text, 10, 64)
	if err != nil {
		return err
	}
''')])
P="protocol/property.go"
quiet("prop-masks","C07 C05",[(P,"	return ((val << 6) >> 6) & 0x3ff","	return val & 0x3ff"),(P,"Property(((val >> 10) << 10) | size)","Property((val &^ 0x3ff) | size)"),(P,"	val := uint16(property)\n	return val&(1<<13) > 0","	return property&(1<<13) != 0"),
 (P,'''	val := uint16(*property)
	*property = Property(val | (1 << 10))''','''	*property |= 1 << 10''')])
quiet("prop-consts","C07 C05 C14",[(P,"1 << 13","packetBit"),(P,"1<<13","packetBit"),(P,"1 << 10)","encryptBit)"),(P,"1<<10","encryptBit"),(P,"// 启用分包\n","const (\n	packetBit  = 1 << 13\n	encryptBit = 1 << 10\n)\n\n// 启用分包\n")])
