T='timer.go';V='server.go';H='session_handler.go';S='session.go';P='protocol.go'
LOOP=T and '''			now := time.Now().Unix()
			keys := make([]string, 0)

			timer.mutex.Lock()
			for {
				if timer.q.Len() == 0 {
					break
				}

				top := timer.q.Top()
				if top == nil || top.Expire > now {
					break
				}
				timer.q.Remove(top)
				delete(timer.mapper, top.Key)
				keys = append(keys, top.Key)
			}
			timer.mutex.Unlock()

			if timer.callback != nil {
				for _, key := range keys {
					timer.callback(key)
				}
			}
'''
quiet("tm-less","C17",[(T,"q[i].Expire < q[j].Expire","q[j].Expire > q[i].Expire")])
quiet("tm-pop-nil","C17",[(T,"	item.Index = -1\n","	item.Index = -1\n	old[n-1] = nil\n")])
quiet("tm-top","C17",[(T,'''	if q.Len() == 0 {
		return nil
	}
	return (*q)[0]''','''	if items := *q; len(items) > 0 {
		return items[0]
	}
	return nil''')])
quiet("tm-while","C17",[(T,'''			for {
				if timer.q.Len() == 0 {
					break
				}

				top := timer.q.Top()
				if top == nil || top.Expire > now {
					break
				}
				timer.q.Remove(top)
''','''			for timer.q.Len() > 0 {
				top := timer.q.Top()
				if top.Expire > now {
					break
				}
				heap.Pop(timer.q)
''')])
quiet("tm-helper","C17 C20",[(T,LOOP,'''			timer.fire(timer.takeExpired(time.Now().Unix()))
'''),(T,"// 检查过期队列",'''// takeExpired removes what has expired.
func (timer *CountdownTimer) takeExpired(now int64) []string {
	timer.mutex.Lock()
	defer timer.mutex.Unlock()
	var keys []string
	for {
		top := timer.q.Top()
		if top == nil || top.Expire > now {
			return keys
		}
		timer.q.Remove(top)
		delete(timer.mapper, top.Key)
		keys = append(keys, top.Key)
	}
}

func (timer *CountdownTimer) fire(keys []string) {
	if timer.callback == nil {
		return
	}
	for _, key := range keys {
		timer.callback(key)
	}
}

// 检查过期队列''')])
quiet("tm-range","C17",[(T,'''	for {
		select {
		case <-t.C:
''','''	for range t.C {
		{
''')])
quiet("tm-elems","C17",[(T,"keys := make([]string, 0)","expired := make([]*element, 0)"),(T,"keys = append(keys, top.Key)","expired = append(expired, top)"),(T,'''				for _, key := range keys {
					timer.callback(key)''','''				for _, e := range expired {
					timer.callback(e.Key)''')])
quiet("tm-varkeys","C17",[(T,"			keys := make([]string, 0)\n","			var keys []string\n")])
quiet("tm-index","C17",[(T,"				for _, key := range keys {\n					timer.callback(key)","				for i := 0; i < len(keys); i++ {\n					timer.callback(keys[i])")])
quiet("tm-remove","C17",[(T,'''	element, ok := timer.mapper[key]
	if !ok {
		return
	}
	delete(timer.mapper, key)
	timer.q.Remove(element)''','''	if e, ok := timer.mapper[key]; ok {
		timer.q.Remove(e)
		delete(timer.mapper, key)
	}''')])
quiet("tm-update","C17",[(T,'''	e := element{
		Key:    key,
		Expire: time.Now().Unix() + atomic.LoadInt64(&timer.seconds),
	}

	timer.mutex.Lock()
	defer timer.mutex.Unlock()
	timer.remove(key)
	heap.Push(timer.q, &e)
	timer.mapper[key] = &e''','''	timer.mutex.Lock()
	defer timer.mutex.Unlock()
	timer.remove(key)
	e := &element{Key: key}
	e.Expire = atomic.LoadInt64(&timer.seconds) + time.Now().Unix()
	timer.mapper[key] = e
	heap.Push(timer.q, e)''')])
quiet("tm-new","C17 C20",[(T,'''	q := make(expirationQueue, 0)
	timer := CountdownTimer{
		q:        &q,
		callback: callback,
		seconds:  seconds,
		mapper:   make(map[string]*element),
	}
	go timer.checkExpirationQueue()
	return &timer''','''	timer := &CountdownTimer{
		seconds:  seconds,
		q:        new(expirationQueue),
		mapper:   map[string]*element{},
		callback: callback,
	}
	go timer.checkExpirationQueue()
	return timer''')])
quiet("tm-stop","C17",[(T,"	t := time.NewTicker(time.Second * 1)\n","	t := time.NewTicker(time.Second)\n	defer t.Stop()\n")])
quiet("tm-unlock","C17",[(T,'''	timer.mutex.Lock()
	defer timer.mutex.Unlock()
	timer.remove(key)
}

func''','''	timer.mutex.Lock()
	timer.remove(key)
	timer.mutex.Unlock()
}

func''')])
quiet("tm-swap","C17",[(T,'''	q[i], q[j] = q[j], q[i]
	q[i].Index, q[j].Index = i, j''','''	a, b := q[i], q[j]
	a.Index, b.Index = j, i
	q[i], q[j] = b, a''')])
quiet("sv-get","C20",[(V,'''	session, ok := server.sessions[id]
	if !ok {
		return nil, false
	}
	return session, true''','''	session, ok := server.sessions[id]
	return session, ok''')])
quiet("sv-snapshot","C20",[(V,'''	server.mutex.Lock()
	sessions := make([]*Session, 0, len(server.sessions))
	for _, session := range server.sessions {
		sessions = append(sessions, session)
	}
	server.mutex.Unlock()

	count := 0
	for _, session := range sessions {''','''	count := 0
	for _, session := range server.snapshot() {'''),(V,"// 广播消息",'''func (server *Server) snapshot() []*Session {
	server.mutex.Lock()
	defer server.mutex.Unlock()

	sessions := make([]*Session, 0, len(server.sessions))
	for _, session := range server.sessions {
		sessions = append(sessions, session)
	}
	return sessions
}

// 广播消息''')])
quiet("sv-safely","C19 C20",[(V,'''		func() {
			defer func() {
				if err := recover(); err != nil {
					debug.PrintStack()
				}
			}()
			server.closeHandler(session)
		}()
''','''		protect(func() { server.closeHandler(session) })
'''),(V,'''	defer func() {
		if err := recover(); err != nil {
			debug.PrintStack()
		}
	}()
	server.timer.Update(strconv.FormatUint(session.ID(), 10))
	handler.(MessageHandler)(session, message)
''','''	server.timer.Update(strconv.FormatUint(session.ID(), 10))
	protect(func() { handler.(MessageHandler)(session, message) })
'''),(V,"// 分派消息",'''func protect(f func()) {
	defer func() {
		if err := recover(); err != nil {
			debug.PrintStack()
		}
	}()
	f()
}

// 分派消息''')])
quiet("sv-timeout","C20",[(V,'''	session, ok := server.GetSession(sessionID)
	if !ok {
		return
	}
	session.Close()

	log.WithFields(log.Fields{
		"id": sessionID,
	}).Debug("[JT/T 808] session read timeout")
''','''	if session, ok := server.GetSession(sessionID); ok {
		session.Close()
		log.WithFields(log.Fields{"id": sessionID}).Debug("[JT/T 808] session read timeout")
	}
''')])
quiet("sv-key","C19 C20",[(V,"server.timer.Remove(strconv.FormatUint(session.ID(), 10))","server.timer.Remove(timerKey(session))"),(V,"server.timer.Update(strconv.FormatUint(session.ID(), 10))","server.timer.Update(timerKey(session))"),(V,"// 处理关闭",'''func timerKey(session *Session) string {
	return strconv.FormatUint(session.ID(), 10)
}

// 处理关闭'''),(H,"handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))","handler.server.timer.Update(timerKey(session))"),(H,'	"strconv"\n','')])
quiet("sv-sprint","C19 C20",[(V,"server.timer.Remove(strconv.FormatUint(session.ID(), 10))",'server.timer.Remove(fmt.Sprintf("%d", session.ID()))'),(V,"server.timer.Update(strconv.FormatUint(session.ID(), 10))","server.timer.Update(fmt.Sprint(session.ID()))")])
quiet("sv-rw","C20 C19",[(V,"	mutex    sync.Mutex","	mutex    sync.RWMutex"),(V,'''	server.mutex.Lock()
	defer server.mutex.Unlock()
	session, ok''','''	server.mutex.RLock()
	defer server.mutex.RUnlock()
	session, ok'''),(V,'''	server.mutex.Lock()
	sessions := make''','''	server.mutex.RLock()
	sessions := make'''),(V,'''		sessions = append(sessions, session)
	}
	server.mutex.Unlock()
''','''		sessions = append(sessions, session)
	}
	server.mutex.RUnlock()
''')])
quiet("sv-addremove","C20 C19",[(V,'''	server.mutex.Lock()
	delete(server.sessions, session.ID())
	server.mutex.Unlock()
''','''	server.dropSession(session.ID())
'''),(V,"// 处理关闭",'''func (server *Server) keepSession(session *Session) {
	server.mutex.Lock()
	defer server.mutex.Unlock()
	server.sessions[session.ID()] = session
}

func (server *Server) dropSession(id uint64) {
	server.mutex.Lock()
	defer server.mutex.Unlock()
	delete(server.sessions, id)
}

// 处理关闭'''),(H,'''	handler.server.mutex.Lock()
	handler.server.sessions[sess.ID()] = session
	handler.server.mutex.Unlock()
''','''	handler.server.keepSession(session)
''')])
quiet("sv-bcast","C20",[(V,'''	sessions := make([]*Session, 0, len(server.sessions))
''','''	var sessions []*Session
'''),(V,'''		if _, err := session.Send(entity); err == nil {
			count++
		}''','''		if _, err := session.Send(entity); err != nil {
			continue
		}
		count++''')])
quiet("sv-bcast-fail","C20",[(V,'''	count := 0
	for _, session := range sessions {
		if _, err := session.Send(entity); err == nil {
			count++
		}
	}
	return count''','''	failed := 0
	for _, session := range sessions {
		if _, err := session.Send(entity); err != nil {
			failed++
		}
	}
	return len(sessions) - failed''')])
quiet("sv-handle","C19",[(V,"	handler.(MessageHandler)(session, message)\n","	handle := handler.(MessageHandler)\n	handle(session, message)\n")])
quiet("sv-nolog","C19 C20",[(V,'''	log.WithFields(log.Fields{
		"id": fmt.Sprintf("0x%x", message.Header.MsgID),
	}).Debug("[JT/T 808] dispatch message")

''','''	msgID := message.Header.MsgID
	log.Debugf("[JT/T 808] dispatch message 0x%x of session %d", uint16(msgID), session.ID())

'''),(V,"server.messageHandlers.Load(message.Header.MsgID)","server.messageHandlers.Load(msgID)")])
quiet("hs-nilbody","C19",[(H,"if message.Body == nil || reflect.ValueOf(message.Body).IsNil() {","if isNil(message.Body) {"),(H,"func (handler sessionHandler) HandleSession",'''func isNil(body protocol.Entity) bool {
	if body == nil {
		return true
	}
	return reflect.ValueOf(body).IsNil()
}

func (handler sessionHandler) HandleSession''')])
quiet("hs-return","C19 C20",[(H,'''			sess.Close()
			break
''','''			sess.Close()
			return
''')])
quiet("hs-handle","C19 C20",[(H,'''		message := msg.(protocol.Message)
		if message''','''		handler.handle(session, msg.(protocol.Message))
	}
}

func (handler sessionHandler) handle(session *Session, message protocol.Message) {
		if message'''),(H,"continue","return",7),(H,'''		reader.Close()
	}
}''','''		reader.Close()
}''')])
quiet("hs-deferclose","C19",[(H,'''		entityPacket.SetReader(reader)
		session.message(&message)
		handler.server.dispatchMessage(session, &message)
		reader.Close()
''','''		func() {
			defer reader.Close()
			entityPacket.SetReader(reader)
			session.message(&message)
			handler.server.dispatchMessage(session, &message)
		}()
''')])
quiet("hs-header","C19",[(H,'''		multipartFile := MultipartFile{
			IccID: message.Header.IccID,
			MsgID: message.Header.MsgID,
			Tag:   entityPacket.GetTag(),
			Sum:   message.Header.Packet.Sum,
		}''','''		header := message.Header
		packet := header.Packet
		multipartFile := MultipartFile{MsgID: header.MsgID, IccID: header.IccID, Sum: packet.Sum, Tag: entityPacket.GetTag()}'''),(H,"multipartFile.Write(message.Header.Packet.Seq, buf)","multipartFile.Write(packet.Seq, buf)")])
quiet("hs-iowrite","C19",[(H,'''		err = multipartFile.Write(message.Header.Packet.Seq, buf)
		if err != nil {''','''		if err := multipartFile.Write(message.Header.Packet.Seq, buf); err != nil {''')])
quiet("hs-ptr","C19",[(H,"multipartFile := MultipartFile{","multipartFile := &MultipartFile{")])
quiet("hs-cond","C19",[(H,'''		if !handler.autoMergePacket || !message.Header.Property.IsEnablePacket() {
			session.message(&message)
			handler.server.dispatchMessage(session, &message)
			continue
		}

		// 处理分包消息
		entityPacket, ok := interface{}(message.Body).(protocol.EntityPacket)
		if !ok {''','''		// 处理分包消息
		entityPacket, ok := message.Body.(protocol.EntityPacket)
		if !ok || !handler.autoMergePacket || !message.Header.Property.IsEnablePacket() {''')])
quiet("ss-icc","C16 C19",[(S,'''	if message.Header.IccID > 0 {
		old := atomic.LoadUint64(&session.iccID)
		if old != 0 && old != message.Header.IccID {
			log.WithFields(log.Fields{
				"id":  session.ID(),
				"old": old,
				"new": message.Header.IccID,
			}).Warn("[JT/T 808] terminal IccID is inconsistent")
		}
		atomic.StoreUint64(&session.iccID, message.Header.IccID)
	}
''','''	if iccID := message.Header.IccID; iccID != 0 {
		old := atomic.SwapUint64(&session.iccID, iccID)
		if old != 0 && old != iccID {
			log.WithFields(log.Fields{
				"id":  session.ID(),
				"old": old,
				"new": iccID,
			}).Warn("[JT/T 808] terminal IccID is inconsistent")
		}
	}
''')])
quiet("ss-nextid-for","C15",[(S,'''	var id uint32
	for {
		id = atomic.LoadUint32(&session.next)
		if id == 0xff {
			if atomic.CompareAndSwapUint32(&session.next, id, 1) {
				id = 1
				break
			}
		} else if atomic.CompareAndSwapUint32(&session.next, id, id+1) {
			id += 1
			break
		}
	}
	return uint16(id)''','''	for {
		id := atomic.LoadUint32(&session.next)
		next := id + 1
		if id == 0xff {
			next = 1
		}
		if atomic.CompareAndSwapUint32(&session.next, id, next) {
			return uint16(next)
		}
	}''')])
quiet("ss-sendinline","C15 C16 C19",[(S,'''	err := session.session.Send(message)
	if err != nil {
		return 0, err
	}
	return message.Header.MsgSerialNo, nil''','''	if err := session.session.Send(message); err != nil {
		return 0, err
	}
	return serialNo, nil''')])
quiet("ss-newheader","C15 C16 C19",[(S,'''	message := protocol.Message{
		Body: entity,
		Header: protocol.Header{
			MsgID:       entity.MsgID(),
			IccID:       atomic.LoadUint64(&session.iccID),
			MsgSerialNo: serialNo,
		},
	}
''','''	var message protocol.Message
	message.Header.MsgID = entity.MsgID()
	message.Header.IccID = atomic.LoadUint64(&session.iccID)
	message.Header.MsgSerialNo = serialNo
	message.Body = entity
''')])
quiet("ss-addmap","C16",[(S,'''	for idx, item := range session.requests {
		if item.msgID == ctx.msgID {
			session.requests[idx] = ctx
			return
		}
	}
	session.requests = append(session.requests, ctx)
''','''	for idx := range session.requests {
		if session.requests[idx].msgID != ctx.msgID {
			continue
		}
		session.requests[idx] = ctx
		return
	}
	session.requests = append(session.requests, ctx)
''')])
quiet("ss-filter","C16",[(S,'''	for idx, item := range session.requests {
		if item.serialNo == msgSerialNo {
			session.requests[idx] = session.requests[len(session.requests)-1]
			session.requests = session.requests[:len(session.requests)-1]
			return item, true
		}
	}
	return requestContext{}, false
''','''	for idx := 0; idx < len(session.requests); idx++ {
		item := session.requests[idx]
		if item.serialNo != msgSerialNo {
			continue
		}
		last := len(session.requests) - 1
		session.requests[idx] = session.requests[last]
		session.requests[last] = requestContext{}
		session.requests = session.requests[:last]
		return item, true
	}
	return requestContext{}, false
''')])
quiet("ss-copydel","C16",[(S,'''			session.requests[idx] = session.requests[len(session.requests)-1]
			session.requests = session.requests[:len(session.requests)-1]
''','''			copy(session.requests[idx:], session.requests[idx+1:])
			session.requests = session.requests[:len(session.requests)-1]
''')])
quiet("pc-keys","C14 C08",[(P,'''	var err error
	var data []byte
	if codec.publicKey == nil || !message.Header.Property.IsEnableEncrypt() {
		data, err = message.Encode()
	} else {
		data, err = message.Encode(codec.publicKey)
	}
''','''	var keys []*rsa.PublicKey
	if codec.publicKey != nil && message.Header.Property.IsEnableEncrypt() {
		keys = append(keys, codec.publicKey)
	}
	data, err := message.Encode(keys...)
''')])
quiet("pc-loop","C08",[(P,'''	message, ok, err := codec.readFromBuffer()
	if ok {
		return message, nil
	}
	if err != nil {
		return nil, err
	}

	var buffer [128]byte
	for {
		count''','''	var buffer [128]byte
	for {
		message, ok, err := codec.readFromBuffer()
		if ok {
			return message, nil
		}
		if err != nil {
			return nil, err
		}

		count'''),(P,'''		if codec.bufferReceiving.Len() == 0 {
			continue
		}
		if codec.bufferReceiving.Len() > 0xffff {
			return nil, errors.ErrBodyTooLong
		}

		message, ok, err := codec.readFromBuffer()
		if ok {
			return message, nil
		}
		if err != nil {
			return nil, err
		}
''','''		if codec.bufferReceiving.Len() > 0xffff {
			return nil, errors.ErrBodyTooLong
		}
''')])
quiet("pc-read","C08",[(P,"count, err := io.ReadAtLeast(codec.r, buffer[:], 1)","count, err := io.ReadAtLeast(codec.r, buffer[0:len(buffer)], 1)")])
quiet("pc-indexbyte","C08",[(P,'''	end := 1
	for ; end < len(data); end++ {
		if data[end] == protocol.PrefixID {
			break
		}
	}
	if end == len(data) {
		return protocol.Message{}, false, nil
	}
''','''	end := bytes.IndexByte(data[1:], protocol.PrefixID)
	if end < 0 {
		return protocol.Message{}, false, nil
	}
	end++
''')])
