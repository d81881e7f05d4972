M="protocol/message.go"; S="session.go"; V="server.go"; T="timer.go"; R="protocol.go"; H="session_handler.go"; L="protocol/t808_0x0200.go"; B="protocol/bufio.go"
# a pooled buffer whose bytes the caller keeps
alarm("enc-pool","C05 C08",[(M,"	buffer := bytes.NewBuffer(nil)\n	buffer.Grow(count + 2)\n","	buffer := encodeBuffers.Get().(*bytes.Buffer)\n	buffer.Reset()\n	defer encodeBuffers.Put(buffer)\n	buffer.Grow(count + 2)\n"),
 (M,"func (message *Message) Encode(","var encodeBuffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}\n\nfunc (message *Message) Encode("),(M,'	"reflect"\n','	"reflect"\n	"sync"\n')])
# a scratch buffer kept between decodes
alarm("dec-scratch","C09",[(M,"	buffer := make([]byte, 0, len(data))\n","	if cap(scratch) < len(data) {\n		scratch = make([]byte, 0, 2*len(data))\n	}\n	buffer := scratch[:0]\n"),(M,"// 协议解码\n","var scratch []byte\n\n// 协议解码\n")])
# in-place unescaping of the receive buffer
alarm("dec-inplace","C09",[(M,"	buffer := make([]byte, 0, len(data))\n","	buffer := data[:0]\n")])
# header taken before the checksum was compared when there is no body
alarm("chk-nobody","C06",[(M,"	if len(buffer) == 0 || checkSum != sum {","	if len(buffer) == 0 || checkSum != sum && len(buffer) != MessageHeaderSize {")])
# the checksum of the encrypted body
alarm("enc-sum-plain","C05 C14",[(M,"	checkSum, count = message.computeChecksum(body, checkSum, count)\n\n	// 编码消息头","	// 编码消息头"),(M,"		if len(key) > 0 && key[0] != nil {\n			message.Header.Property.enableEncrypt()","		checkSum, count = message.computeChecksum(body, checkSum, count)\n		if len(key) > 0 && key[0] != nil {\n			message.Header.Property.enableEncrypt()")])
# an empty body is not encrypted but flagged
alarm("dec-empty-crypt","C09 C14",[(M,"		if header.Property.IsEnableEncrypt() {\n			if len(key)","		if header.Property.IsEnableEncrypt() && len(buffer) > 0 {\n			if len(key)")])
# the receive buffer is compacted by copying too little
alarm("rcv-limit","C08",[(R,"codec.bufferReceiving.Len() > 0xffff","codec.bufferReceiving.Len() > 1024")])
alarm("rcv-drop-err","C08",[(R,"		count, err := io.ReadAtLeast(codec.r, buffer[:], 1)\n		if err != nil {\n			return nil, err\n		}\n		codec.bufferReceiving.Write(buffer[:count])","		count, err := codec.r.Read(buffer[:])\n		if err != nil {\n			return nil, err\n		}\n		codec.bufferReceiving.Write(buffer[:count])")])
# write in two pieces is interleaved; a short write
alarm("send-two-writes","C15",[(R,"	count, err := codec.w.Write(data)","	count, err := codec.w.Write(data[:len(data)/2])\n	if err == nil {\n		count, err = codec.w.Write(data[len(data)/2:])\n	}")])
# pending request taken by the id of the last one with the same serial
alarm("req-take-first","C16",[(S,"	ctx, ok := session.takeRequestContext(msgSerialNo)\n	if ok {","	ctx, ok := session.takeRequestContext(msgSerialNo)\n	if ok && ctx.serialNo == msgSerialNo&0xff {")])
alarm("req-callback-go","C16 C19",[(S,"		ctx.callback(message)\n","		go ctx.callback(message)\n")])
alarm("req-serial0","C16",[(S,"	if msgSerialNo == 0 {","	if msgSerialNo == 0 || message.Header.Property.IsEnablePacket() {")])
alarm("req-iccid-gate","C16",[(S,"			}).Warn(\"[JT/T 808] terminal IccID is inconsistent\")\n","			}).Warn(\"[JT/T 808] terminal IccID is inconsistent\")\n			return\n")])
alarm("req-withdraw-always","C16",[(S,"		if cb != nil {\n			session.takeRequestContext(serialNo)\n		}\n		return 0, err","		if cb != nil && err != link.SessionClosedError {\n			session.takeRequestContext(serialNo)\n		}\n		return 0, err")])
# session numbers
alarm("id-add","C15",[(S,"			if atomic.CompareAndSwapUint32(&session.next, id, 1) {\n				id = 1\n				break\n			}","			atomic.StoreUint32(&session.next, 1)\n			id = 1\n			break")])
# timer
alarm("tm-now-late","C17",[(T,"			for {\n				if timer.q.Len() == 0 {","			for {\n				now = time.Now().Unix() + 1\n				if timer.q.Len() == 0 {")])
alarm("tm-same","C17",[(T,"	defer timer.mutex.Unlock()\n	timer.remove(key)\n	heap.Push","	defer timer.mutex.Unlock()\n	if old, ok := timer.mapper[key]; ok && old.Expire == e.Expire-1 {\n		old.Expire = e.Expire\n		return\n	}\n	timer.remove(key)\n	heap.Push")])
alarm("tm-remove-nil","C17",[(T,"	delete(timer.mapper, key)\n	timer.q.Remove(element)\n","	delete(timer.mapper, key)\n	if element.Index > 0 {\n		timer.q.Remove(element)\n	}\n")])
alarm("tm-cap","C17",[(T,"				keys = append(keys, top.Key)\n","				keys = append(keys, top.Key)\n				if len(keys) == 1024 {\n					break\n				}\n")])
alarm("tm-unlock-early","C17",[(T,"	timer.mutex.Lock()\n	defer timer.mutex.Unlock()\n	timer.remove(key)\n	heap.Push(timer.q, &e)\n","	timer.mutex.Lock()\n	timer.remove(key)\n	timer.mutex.Unlock()\n	timer.mutex.Lock()\n	defer timer.mutex.Unlock()\n	heap.Push(timer.q, &e)\n")])
# server
alarm("sv-close-twice","C20",[(V,"	session.Close()\n\n	log.WithFields(log.Fields{\n		\"id\": sessionID,","	session.Close()\n	server.handleClose(session)\n\n	log.WithFields(log.Fields{\n		\"id\": sessionID,")])
alarm("sv-timer-noupdate","C20",[(V,"	server.timer.Update(strconv.FormatUint(session.ID(), 10))\n	handler.(","	handler.(")])
alarm("sv-timer-int","C20",[(V,"	server.timer.Remove(strconv.FormatUint(session.ID(), 10))","	server.timer.Remove(strconv.Itoa(int(uint32(session.ID()))))")])
alarm("sv-handler-first","C19",[(V,"	if handler != nil {\n		server.messageHandlers.Store(msgID, handler)","	if handler != nil {\n		if _, loaded := server.messageHandlers.LoadOrStore(msgID, handler); !loaded {\n			return\n		}\n		server.messageHandlers.Store(msgID&0x7fff, handler)")])
alarm("sv-lookup-close","C20",[(V,"	server.mutex.Lock()\n	delete(server.sessions, session.ID())\n	server.mutex.Unlock()\n\n	server.timer.Remove(strconv.FormatUint(session.ID(), 10))\n","	server.timer.Remove(strconv.FormatUint(session.ID(), 10))\n	defer func() {\n		server.mutex.Lock()\n		delete(server.sessions, session.ID())\n		server.mutex.Unlock()\n	}()\n")])
# location
alarm("loc-neg0","C11",[(L,"	if lat < 0 {","	if lat < 0 && !entity.Lat.Abs().LessThan(decimal.New(1, 0)) {")])
alarm("loc-extra-cap","C10",[(L,"full[0], full[1] = ext.ID(), byte(len(data))","full[0], full[1] = ext.ID(), byte(len(data)&0x7f)")])
alarm("loc-typednil","C10",[(L,"		if ext == nil || reflect.ValueOf(ext).IsNil() {\n			continue","		if ext == nil || reflect.ValueOf(ext).IsNil() {\n			break")])
alarm("rd-string-nul","C04 C01",[(B,"	return bytesToString(text), nil","	if len(size) == 0 {\n		return string(text), nil\n	}\n	return bytesToString(text), nil")])
alarm("wr-string-trunc","C02",[(B,"	writer.Write(data, size...)\n	return nil","	if len(size) > 0 && len(data) > size[0] {\n		return io.ErrShortBuffer\n	}\n	writer.Write(data, size...)\n	return nil")])
