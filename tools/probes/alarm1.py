M='protocol/message.go';H='protocol/header.go';L='protocol/helpers.go';B='protocol/bufio.go'
T='timer.go';S='session.go';SV='server.go';SH='session_handler.go';P='protocol.go';MP='multipart.go';PR='protocol/params.go'
L2='protocol/t808_0x0200.go';V='protocol/t808_0x8604.go'

# shared buffer pools, cached values
alarm("hdr-keep-packet","C07",[(H,"	writer := NewWriter()\n\n	// 写入消息ID","	if header.Packet != nil && header.Packet.Sum == 1 {\n		header.Packet = nil\n	}\n	writer := NewWriter()\n\n	// 写入消息ID")])
alarm("msg-trim-empty-body","C05 C07",[(M,"	if len(body) > 0xffff {","	if len(body) > 0 && body[len(body)-1] == 0 && len(body)%2 == 1 && message.Header.Packet != nil {\n		body = body[:len(body)-1]\n	}\n	if len(body) > 0xffff {")])
alarm("msg-sum-escape-7d","C05 C06",[(M,"		if (data[len(data)-1]) == EscapeByteSufix1 {\n			sum = EscapeByte\n		} else if data[len(data)-1] == EscapeByteSufix2 {\n			sum = PrefixID","		if (data[len(data)-1]) == EscapeByteSufix2 {\n			sum = EscapeByte\n		} else if data[len(data)-1] == EscapeByteSufix1 {\n			sum = PrefixID")])
alarm("msg-lenient-escape","C06",[(M,"		} else {\n			return errors.ErrInvalidMessage\n		}\n		i += 2","		} else {\n			checkSum = checkSum ^ b\n			buffer = append(buffer, b)\n		}\n		i += 2")])
alarm("msg-trailing-escape","C06",[(M,"		if i+1 >= len(data) {\n			return errors.ErrInvalidMessage\n		}\n","		if i+1 >= len(data) {\n			break\n		}\n")])
alarm("msg-bodysize-less","C09",[(M,"	if len(buffer) != int(header.Property.GetBodySize()) {","	if len(buffer) < int(header.Property.GetBodySize()) {")])
alarm("msg-stale-body","C09",[(M,"	message.Header = header\n	return nil","	if message.Header.MsgID != header.MsgID || message.Body != nil {\n		message.Header = header\n	}\n	return nil")])
alarm("msg-encrypted-nokey","C09",[(M,"			if len(key) == 0 || key[0] == nil {","			if len(key) == 0 || key[0] == nil && len(buffer) > 0 {")])
alarm("msg-checksum-skip","C06",[(M,"	if len(buffer) == 0 || checkSum != sum {","	if len(buffer) == 0 || checkSum != sum && sum != 0 {")])
alarm("hdr-icc-float","C07",[(H,"strconv.FormatUint(header.IccID, 10)","strconv.FormatInt(int64(float32(header.IccID)), 10)")])
alarm("bcd-odd-tail","C12",[(L,"	if size[0] < len(bcd) {","	if size[0] <= len(bcd)-1 || len(bcd) == 1 {")])
alarm("bcd-strip-one","C12",[(L,"			if buf[idx] != '0' {\n				return string(buf[idx:])","			if buf[idx] != '0' || idx == 1 {\n				return string(buf[idx:])")])
alarm("time-utc","C12",[(L,'	t = time.Unix(t.Unix(), 0)\n','	t = time.Unix(t.Unix(), 0)\n	if t.Second() == 59 && t.Minute() == 59 && t.Nanosecond() == 0 && t.Hour() == 23 && t.YearDay() == 366 {\n		t = t.Add(-time.Second)\n	}\n')])
alarm("time-len","C12 C03",[(L,"	if len(bcd) != 6 {","	if len(bcd) > 6 {")])
alarm("geo-trunc5","C11",[(L,"	return fLat.Truncate(6), fLon.Truncate(6)","	return fLat.Truncate(6), fLon.Truncate(5)")])
alarm("geo-both","C11",[(L,"	if west {\n		fLon","	if west && !south {\n		fLon")])
alarm("oaep-limit","C14",[(L,"	limit := pub.Size() - 2*hash.Size() - 2","	limit := pub.Size() - 2*hash.Size()")])
alarm("oaep-split-gt","C14",[(L,"	for len(data) >= limit {","	for len(data) > limit+1 {")])
alarm("oaep-limit-zero","C14",[(L,"	if limit <= 0 {","	if limit < 0 {")])
alarm("oaep-append-alias","C14",[(L,"	return buffer.Bytes(), nil\n}\n\n// bytes切割","	return bytes.TrimRight(buffer.Bytes(), \"\\x00\"), nil\n}\n\n// bytes切割")])
alarm("reader-negative","C03",[(B,"	if num > reader.r.Len() {\n		return nil, io.ErrUnexpectedEOF\n	}\n\n	curr","	if num > len(reader.d) {\n		return nil, io.ErrUnexpectedEOF\n	}\n\n	curr")])
alarm("writer-pad","C02",[(B,"		for i := 0; i < end; i++ {","		for i := 0; i < end && i < 16; i++ {")])
alarm("readstring-trim","C04",[(B,"	return bytesToString(text), nil","	return string(bytes.TrimRight(text, \"\\x00\")), nil")])
alarm("readu16-short","C04",[(B,"	if reader.r.Len() < 2 {\n		return 0, io.ErrUnexpectedEOF\n	}\n\n	var buf [2]byte\n	n, err := reader.r.Read(buf[:])\n	if err != nil {\n		return 0, err\n	}\n	if n != len(buf) {\n		return 0, io.ErrUnexpectedEOF\n	}","	var buf [2]byte\n	_, err := reader.r.Read(buf[:])\n	if err != nil {\n		return 0, err\n	}")])
alarm("param-alias","C13",[(PR,"	buffer := make([]byte, len(b))\n	copy(buffer, b)\n	param.serialized = buffer","	param.serialized = b")])
alarm("param-setbyte-reuse","C13",[(PR,"	param.id = id\n	param.serialized = []byte{b}","	param.id = id\n	param.serialized = append(param.serialized[:0], b)")])
alarm("param-getu32-short","C13",[(PR,"	if len(param.serialized) < 4 {","	if len(param.serialized) < 3 {")])
alarm("param-getbytes-alias","C13",[(PR,"	data := make([]byte, len(param.serialized))\n	copy(data, param.serialized)\n	return data, nil","	return param.serialized, nil")])
alarm("extras-unknown-stop","C10",[(L2,"				}).Warn(\"[JT/T808] unknown T808_0x0200 extra type\")\n				continue","				}).Warn(\"[JT/T808] unknown T808_0x0200 extra type\")\n				if len(extras) == 0 {\n					continue\n				}\n				break")])
alarm("extras-length-lax","C10",[(L2,"		if count != length {","		if count > length {")])
alarm("extras-ff","C10",[(L2,"		if ext == nil || reflect.ValueOf(ext).IsNil() {","		if ext == nil || reflect.ValueOf(ext).IsNil() || ext.ID() == 0x31 && i > 7 {")])
alarm("lat-flag-round","C11",[(L2,"	lat := entity.Lat.Mul(mul).IntPart()\n	if lat < 0 {","	lat := entity.Lat.Mul(mul).IntPart()\n	if entity.Lat.IntPart() < 0 {")])
alarm("poly-count-byte","C02 C01",[(V,"	writer.WriteUint16(uint16(len(entity.Vertexes)))","	writer.WriteUint16(uint16(byte(len(entity.Vertexes))))")])
alarm("poly-swap-late","C04",[(V,"		entity.Vertexes = append(entity.Vertexes, vertex)","		if j > 255 {\n			vertex.Lat, vertex.Lng = vertex.Lng, vertex.Lat\n		}\n		entity.Vertexes = append(entity.Vertexes, vertex)")])
# stream
alarm("stream-next-only-end","C08",[(P,"	codec.bufferReceiving.Next(end + 1)\n\n	log","	codec.bufferReceiving.Next(end + 1)\n	if codec.bufferReceiving.Len() == 1 {\n		codec.bufferReceiving.Reset()\n	}\n\n	log")])
alarm("stream-limit","C08",[(P,"	if codec.bufferReceiving.Len() > 0xffff {","	if codec.bufferReceiving.Len() > 0x7ff {")]) 
alarm("stream-error-drop","C08",[(P,"		codec.bufferReceiving.Next(end + 1)\n		log","		codec.bufferReceiving.Reset()\n		log")])
alarm("stream-readfull","C08",[(P,"io.ReadAtLeast(codec.r, buffer[:], 1)","io.ReadAtLeast(codec.r, buffer[:], 2)")])
alarm("stream-firstread","C08",[(P,"	message, ok, err := codec.readFromBuffer()\n	if ok {\n		return message, nil\n	}\n	if err != nil {\n		return nil, err\n	}\n\n	var buffer","	var message protocol.Message\n	var ok bool\n	var err error\n	if codec.bufferReceiving.Len() >= 15 {\n		message, ok, err = codec.readFromBuffer()\n	}\n	if ok {\n		return message, nil\n	}\n	if err != nil {\n		return nil, err\n	}\n\n	var buffer")])
# sessions
alarm("sess-wrap-zero","C15",[(S,"			if atomic.CompareAndSwapUint32(&session.next, id, 1) {\n				id = 1","			if atomic.CompareAndSwapUint32(&session.next, id, 0) {\n				id = 0")])
alarm("sess-add-mod","C15",[(S,"	var id uint32\n	for {\n		id = atomic.LoadUint32(&session.next)\n		if id == 0xff {\n			if atomic.CompareAndSwapUint32(&session.next, id, 1) {\n				id = 1\n				break\n			}\n		} else if atomic.CompareAndSwapUint32(&session.next, id, id+1) {\n			id += 1\n			break\n		}\n	}\n	return uint16(id)","	return uint16(atomic.AddUint32(&session.next, 1)%255 + 1)")])
alarm("sess-load-after","C15",[(S,"		} else if atomic.CompareAndSwapUint32(&session.next, id, id+1) {\n			id += 1\n			break","		} else if atomic.CompareAndSwapUint32(&session.next, id, id+1) {\n			id = atomic.LoadUint32(&session.next)\n			break")])
alarm("sess-register-after","C16",[(S,"	if cb != nil {\n		session.addRequestContext(requestContext{\n			msgID:    uint16(entity.MsgID()),\n			serialNo: serialNo,\n			callback: cb,\n		})\n	}\n\n	if _, err := session.send(entity, serialNo); err != nil {\n		if cb != nil {\n			session.takeRequestContext(serialNo)\n		}\n		return 0, err\n	}\n","	if _, err := session.send(entity, serialNo); err != nil {\n		return 0, err\n	}\n	if cb != nil {\n		session.addRequestContext(requestContext{\n			msgID:    uint16(entity.MsgID()),\n			serialNo: serialNo,\n			callback: cb,\n		})\n	}\n")])
alarm("sess-no-withdraw","C16",[(S,"		if cb != nil {\n			session.takeRequestContext(serialNo)\n		}\n		return 0, err","		return 0, err")])
alarm("sess-callback-locked","C16",[(S,"	ctx, ok := session.takeRequestContext(msgSerialNo)\n	if ok {\n","	ctx, ok := session.takeRequestContext(msgSerialNo)\n	if ok {\n		session.mux.Lock()\n		defer session.mux.Unlock()\n")])
alarm("sess-remove-loop","C16",[(S,"			session.requests[idx] = session.requests[len(session.requests)-1]\n			session.requests = session.requests[:len(session.requests)-1]","			session.requests = append(session.requests[:idx], session.requests[len(session.requests)-1:]...)")])
alarm("sess-match-by-id","C16",[(S,"		msgSerialNo = message.Body.(*protocol.T808_0x0001).ReplyMsgSerialNo","		msgSerialNo = message.Body.(*protocol.T808_0x0001).ReplyMsgSerialNo & 0xff")])
alarm("sess-wrong-serial","C16",[(S,"		msgSerialNo = message.Body.(*protocol.T808_0x0802).ReplyMsgSerialNo","		msgSerialNo = message.Header.MsgSerialNo")])
# timer
alarm("timer-strict","C17",[(T,"top.Expire > now","top.Expire >= now")])
alarm("timer-stale-secs","C17",[(T,"		Expire: time.Now().Unix() + atomic.LoadInt64(&timer.seconds),","		Expire: time.Now().Unix() + atomic.LoadInt64(&timer.seconds)/2*2,")])
alarm("timer-swap-index","C17",[(T,"	q[i].Index, q[j].Index = i, j","	q[i].Index = i")])
alarm("timer-callback-locked","C17",[(T,"			timer.mutex.Unlock()\n\n			if timer.callback","			defer timer.mutex.Unlock()\n\n			if timer.callback")])
alarm("timer-nodelete","C17",[(T,"				delete(timer.mapper, top.Key)\n","")])
alarm("timer-batch","C17",[(T,"				keys = append(keys, top.Key)","				keys = append(keys, top.Key)\n				if len(keys) == 1024 {\n					break\n				}")])
# server
alarm("srv-close-any","C20",[(SV,"	delete(server.sessions, session.ID())\n	server.mutex.Unlock()\n\n	server.timer","	if server.sessions[session.ID()] != session {\n		server.mutex.Unlock()\n		return\n	}\n	delete(server.sessions, session.ID())\n	server.mutex.Unlock()\n\n	server.timer")])
alarm("srv-timer-hex","C20",[(SV,'	sessionID, err := strconv.ParseUint(key, 10, 64)','	sessionID, err := strconv.ParseUint(key, 10, 32)')])
alarm("srv-bcast-stop","C20",[(SV,"		if _, err := session.Send(entity); err == nil {\n			count++\n		}","		if _, err := session.Send(entity); err != nil {\n			break\n		}\n		count++")])
alarm("srv-dispatch-order","C19",[(SH,"		if !handler.autoMergePacket || !message.Header.Property.IsEnablePacket() {\n			session.message(&message)\n			handler.server.dispatchMessage(session, &message)\n","		if !handler.autoMergePacket || !message.Header.Property.IsEnablePacket() {\n			handler.server.dispatchMessage(session, &message)\n			session.message(&message)\n")])
alarm("srv-reply-late","C19",[(SH,"		session.Reply(&message, protocol.T808_0x8001ResultSuccess)\n		if !multipartFile.IsFull() {\n			continue\n		}","		if !multipartFile.IsFull() {\n			continue\n		}\n		session.Reply(&message, protocol.T808_0x8001ResultSuccess)")])
alarm("srv-reader-leak","C19",[(SH,"		buf, err := ioutil.ReadAll(entityPacket.GetReader())","		buf, err := ioutil.ReadAll(io.LimitReader(entityPacket.GetReader(), 1000))"),(SH,'	"io/ioutil"','	"io"\n	"io/ioutil"')])
alarm("srv-close-register","C20",[(SH,"	handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))\n	var once","	_ = strconv.Itoa\n	var once")])
alarm("srv-recover-lost","C19",[(SV,"	defer func() {\n		if err := recover(); err != nil {\n			debug.PrintStack()\n		}\n	}()\n	server.timer.Update(strconv.FormatUint(session.ID(), 10))\n	handler.(MessageHandler)(session, message)","	server.timer.Update(strconv.FormatUint(session.ID(), 10))\n	defer func() {\n		if err, ok := recover().(error); ok {\n			log.Error(err)\n			debug.PrintStack()\n		} else if err := recover(); err != nil {\n			panic(err)\n		}\n	}()\n	handler.(MessageHandler)(session, message)")])
