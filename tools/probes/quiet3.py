L="protocol/t808_0x0200.go"
quiet("loc-helper","C01 C02 C10 C11",[(L,'''	// 写入附加信息
	for i := 0; i < len(entity.Extras); i++ {
		ext := entity.Extras[i]
		if ext == nil || reflect.ValueOf(ext).IsNil() {
			continue
		}
		data := ext.Data()
		full := make([]byte, len(data)+2)
		full[0], full[1] = ext.ID(), byte(len(data))
		copy(full[2:], data)
		writer.Write(full)
	}
	return writer.Bytes(), nil
}
''','''	// 写入附加信息
	for _, ext := range entity.Extras {
		if ext == nil || reflect.ValueOf(ext).IsNil() {
			continue
		}
		writeExtra(&writer, ext)
	}
	return writer.Bytes(), nil
}

func writeExtra(writer *Writer, ext extra.Entity) {
	data := ext.Data()
	writer.WriteByte(ext.ID())
	writer.WriteByte(byte(len(data)))
	writer.Write(data)
}
''')])
quiet("loc-abs","C02 C11",[(L,'''	writer.WriteUint32(uint32(math.Abs(float64(lat))))''','''	writer.WriteUint32(absUint32(lat))'''),(L,'''	writer.WriteUint32(uint32(math.Abs(float64(lng))))''','''	writer.WriteUint32(absUint32(lng))'''),(L,'''func (entity *T808_0x0200) Decode''','''func absUint32(n int64) uint32 {
	if n < 0 {
		n = -n
	}
	return uint32(n)
}

func (entity *T808_0x0200) Decode'''),(L,'	"math"\n','')])
quiet("loc-extras-dec","C01 C03 C04 C10",[(L,'''	for {
		if len(buffer) < 2 {
			break
		}
		id''','''	for len(buffer) >= 2 {
		id'''),(L,'''		extraEntity, count, err := extra.Decode(id, buffer[:length])
		if err != nil {
			if err == errors.ErrTypeNotRegistered {
				buffer = buffer[length:]
				log''','''		value := buffer[:length]
		buffer = buffer[length:]
		extraEntity, count, err := extra.Decode(id, value)
		if err != nil {
			if err == errors.ErrTypeNotRegistered {
				log'''),(L,'''		extras = append(extras, extraEntity)
		buffer = buffer[length:]
''','''		extras = append(extras, extraEntity)
''')])
quiet("loc-extras-reader","C01 C03 C04 C10",[(L,'''	extras := make([]extra.Entity, 0)
	buffer := data[len(data)-reader.Len():]
	for {
		if len(buffer) < 2 {
			break
		}
		id, length := buffer[0], int(buffer[1])
		buffer = buffer[2:]
		if len(buffer) < length {
			return 0, errors.ErrInvalidExtraLength
		}

		extraEntity, count, err := extra.Decode(id, buffer[:length])
		if err != nil {
			if err == errors.ErrTypeNotRegistered {
				buffer = buffer[length:]
				log''','''	var extras []extra.Entity
	rest := NewReader(data[28:])
	for rest.Len() >= 2 {
		id, _ := rest.ReadByte()
		size, _ := rest.ReadByte()
		length := int(size)
		value, err := rest.Read(length)
		if err != nil {
			return 0, errors.ErrInvalidExtraLength
		}

		extraEntity, count, err := extra.Decode(id, value)
		if err != nil {
			if err == errors.ErrTypeNotRegistered {
				log'''),(L,'''		extras = append(extras, extraEntity)
		buffer = buffer[length:]
''','''		extras = append(extras, extraEntity)
''')])
quiet("loc-extras-index","C10 C04",[(L,'''	buffer := data[len(data)-reader.Len():]
	for {
		if len(buffer) < 2 {
			break
		}
		id, length := buffer[0], int(buffer[1])
		buffer = buffer[2:]
		if len(buffer) < length {
			return 0, errors.ErrInvalidExtraLength
		}

		extraEntity, count, err := extra.Decode(id, buffer[:length])
		if err != nil {
			if err == errors.ErrTypeNotRegistered {
				buffer = buffer[length:]
''','''	pos := len(data) - reader.Len()
	for pos+2 <= len(data) {
		id, length := data[pos], int(data[pos+1])
		pos += 2
		if pos+length > len(data) {
			return 0, errors.ErrInvalidExtraLength
		}

		extraEntity, count, err := extra.Decode(id, data[pos:pos+length])
		if err != nil {
			if err == errors.ErrTypeNotRegistered {
				pos += length
'''),(L,"		buffer = buffer[length:]\n	}\n","		pos += length\n	}\n")])
P="protocol/t808_0x8103.go"
quiet("param-enc-helper","C02 C13",[(P,'''		// 写入参数ID
		writer.WriteUint32(param.id)

		// 写入参数长度
		writer.WriteByte(byte(len(param.serialized)))

		// 写入参数数据
		writer.Write(param.serialized)
	}
	return writer.Bytes(), nil
}
''','''		param.encode(&writer)
	}
	return writer.Bytes(), nil
}

func (param *Param) encode(writer *Writer) {
	writer.WriteUint32(param.id).WriteByte(byte(len(param.serialized))).Write(param.serialized)
}

func readParam(reader *Reader) (*Param, error) {
	id, err := reader.ReadUint32()
	if err != nil {
		return nil, err
	}
	size, err := reader.ReadByte()
	if err != nil {
		return nil, err
	}
	value, err := reader.Read(int(size))
	if err != nil {
		return nil, err
	}
	return &Param{id: id, serialized: value}, nil
}
'''),(P,'''		// 读取参数ID
		id, err := reader.ReadUint32()
		if err != nil {
			return 0, err
		}

		// 读取数据长度
		size, err := reader.ReadByte()
		if err != nil {
			return 0, err
		}

		// 读取数据内容
		value, err := reader.Read(int(size))
		if err != nil {
			return 0, err
		}
		params = append(params, &Param{
			id:         id,
			serialized: value,
		})
''','''		param, err := readParam(&reader)
		if err != nil {
			return 0, err
		}
		params = append(params, param)
''')])
quiet("param-dec-down","C03 C04 C13",[(P,'''	for i := 0; i < int(paramNums); i++ {''','''	for n := paramNums; n > 0; n-- {''')])
quiet("param-dec-byte","C03 C04 C13",[(P,'''	for i := 0; i < int(paramNums); i++ {''','''	for i := byte(0); i < paramNums; i++ {''')])
quiet("param-dec-make","C03 C04 C13",[(P,'''make([]*Param, 0, paramNums)''','''make([]*Param, paramNums)'''),(P,'''		params = append(params, &Param{
			id:         id,
			serialized: value,
		})
''','''		params[i] = &Param{id: id, serialized: value}
''')])
quiet("param-dec-while","C03 C04 C13",[(P,'''	for i := 0; i < int(paramNums); i++ {''','''	for len(params) < int(paramNums) {''')])
quiet("param-fields","C13 C01",[("protocol/params.go","param.serialized","param.value",0+0) if False else ("protocol/params.go",'''	buffer := make([]byte, len(b))
	copy(buffer, b)
	param.serialized = buffer
''','''	param.serialized = append(make([]byte, 0, len(b)), b...)
'''),("protocol/params.go",'''	var buffer [2]byte
	binary.BigEndian.PutUint16(buffer[:], n)
	param.serialized = buffer[:]
''','''	param.serialized = make([]byte, 2)
	binary.BigEndian.PutUint16(param.serialized, n)
'''),("protocol/params.go",'''	var buffer [4]byte
	binary.BigEndian.PutUint32(buffer[:], n)
	param.serialized = buffer[:]
''','''	param.serialized = []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
''')])
R="protocol/t808_0x8606.go"
quiet("route-point-helper","C01 C02 C03 C04 C11",[(R,'''	for i := 0; i < int(count); i++ {
		var point T808_0x8606_Point

		// 读取拐点ID
		point.ID, err = reader.ReadUint32()
		if err != nil {
			return 0, err
		}

		// 读取路段ID
		point.SectionID, err = reader.ReadUint32()
		if err != nil {
			return 0, err
		}
''','''	for i := 0; i < int(count); i++ {
		var point T808_0x8606_Point
		if err = point.readIDs(&reader); err != nil {
			return 0, err
		}
'''),(R,'''func (entity *T808_0x8606) MsgID''','''func (point *T808_0x8606_Point) readIDs(reader *Reader) (err error) {
	if point.ID, err = reader.ReadUint32(); err != nil {
		return err
	}
	point.SectionID, err = reader.ReadUint32()
	return err
}

func (point *T808_0x8606_Point) timed() bool {
	return point.TimeTooLong != nil && point.TimeTooShort != nil
}

func (entity *T808_0x8606) MsgID'''),(R,'''		point.Attribute.SetTimeLimit(point.TimeTooLong != nil && point.TimeTooShort != nil)''','''		point.Attribute.SetTimeLimit(point.timed())'''),(R,'''		if point.TimeTooLong != nil && point.TimeTooShort != nil {''','''		if point.timed() {''')])
quiet("route-index","C02 C11",[(R,"	for _, point := range entity.Points {","	for i := range entity.Points {\n		point := entity.Points[i]")])
quiet("route-local-flags","C02 C01",[(R,'''		point.Attribute.SetTimeLimit(point.TimeTooLong != nil && point.TimeTooShort != nil)
		point.Attribute.SetSpeedLimit(point.MaxSpeed != nil && point.OverSpeedDuration != nil)
''','''		hasTime := point.TimeTooLong != nil && point.TimeTooShort != nil
		hasSpeed := point.MaxSpeed != nil && point.OverSpeedDuration != nil
		point.Attribute.SetSpeedLimit(hasSpeed)
		point.Attribute.SetTimeLimit(hasTime)
'''),(R,"		if point.TimeTooLong != nil && point.TimeTooShort != nil {","		if hasTime {"),(R,"		if point.MaxSpeed != nil && point.OverSpeedDuration != nil {","		if hasSpeed {")])
Q="protocol/t808_0x8302.go"
quiet("ask-writstring","C01 C02",[(Q,'''		reader := bytes.NewReader([]byte(answer.Content))
		content, err := ioutil.ReadAll(
			transform.NewReader(reader, simplifiedchinese.GB18030.NewEncoder()))
		if err != nil {
			return nil, err
		}
''','''		content, err := encodeText(answer.Content)
		if err != nil {
			return nil, err
		}
'''),(Q,'''	reader := bytes.NewReader([]byte(entity.Question))
	question, err := ioutil.ReadAll(
		transform.NewReader(reader, simplifiedchinese.GB18030.NewEncoder()))
	if err''','''	question, err := encodeText(entity.Question)
	if err'''),(Q,'''func (entity *T808_0x8302) Decode''','''func encodeText(s string) ([]byte, error) {
	return ioutil.ReadAll(transform.NewReader(
		bytes.NewReader([]byte(s)), simplifiedchinese.GB18030.NewEncoder()))
}

func (entity *T808_0x8302) Decode''')])
quiet("ask-for-len","C03 C04",[(Q,'''	for {
		if reader.Len() == 0 {
			break
		}

		var''','''	for reader.Len() > 0 {
		var''')])
quiet("ask-encoder-bytes","C02",[(Q,'''		reader := bytes.NewReader([]byte(answer.Content))
		content, err := ioutil.ReadAll(
			transform.NewReader(reader, simplifiedchinese.GB18030.NewEncoder()))
''','''		content, err := simplifiedchinese.GB18030.NewEncoder().Bytes([]byte(answer.Content))
''')])
Z="protocol/t808_0x0901.go"
quiet("gzip-readall","C01 C03 C04",[(Z,'''	buffer := bytes.NewBuffer(nil)
	gzipReader, err''','''	gzipReader, err'''),(Z,'''	var temp [256]byte
	for {
		n, err := gzipReader.Read(temp[:])
		if err != nil && err != io.EOF {
			return 0, err
		}

		if n > 0 {
			buffer.Write(temp[:n])
		}

		if err == io.EOF {
			break
		}
	}
	entity.Uncompressed = buffer.Bytes()
''','''	entity.Uncompressed, err = io.ReadAll(gzipReader)
	if err != nil {
		return 0, err
	}
''')])
M8="protocol/t808_0x0801.go"
quiet("media-enc","C01 C02",[(M8,'''	if entity.Packet != nil {
		data, err = ioutil.ReadAll(entity.Packet)
		if err != nil {
			return nil, err
		}
		writer.Write(data)
	}
	return writer.Bytes(), nil''','''	if entity.Packet == nil {
		return writer.Bytes(), nil
	}
	packet, err := ioutil.ReadAll(entity.Packet)
	if err != nil {
		return nil, err
	}
	return writer.Write(packet).Bytes(), nil''')])
X="protocol/extra/0x11.go"
quiet("x11-append","C10",[(X,'''	buffer := bytes.NewBuffer(nil)
	buffer.WriteByte(value.Type)

	if value.Type != 0 && value.AreaID != nil {
		var temp [4]byte
		binary.BigEndian.PutUint32(temp[:], uint32(*value.AreaID))
		buffer.Write(temp[:])
	}
	extra.serialized = buffer.Bytes()
	return &extra''','''	extra.serialized = []byte{value.Type}
	if value.Type != 0 && value.AreaID != nil {
		extra.serialized = append(extra.serialized, 0, 0, 0, 0)
		binary.BigEndian.PutUint32(extra.serialized[1:], *value.AreaID)
	}
	return &extra'''),(X,'	"bytes"\n','')])
quiet("registry-generic","C09",[("protocol/register.go",'''	entityMapper[typ] = creator''','''	mapper := entityMapper
	mapper[typ] = creator''')])
