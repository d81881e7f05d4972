S="session.go"
quiet("sess-nextid","C15 C16 C19",[(S,'''	var id uint32
	for {
		id = atomic.LoadUint32(&session.next)
		if id == 0xff {
			if atomic.CompareAndSwapUint32(&session.next, id, 1) {
				id = 1
				break
			}
		} else if atomic.CompareAndSwapUint32(&session.next, id, id+1) {
			id += 1
			break
		}
	}
	return uint16(id)
''','''	for {
		old := atomic.LoadUint32(&session.next)
		id := old + 1
		if old == 0xff {
			id = 1
		}
		if atomic.CompareAndSwapUint32(&session.next, old, id) {
			return uint16(id)
		}
	}
''')])
quiet("sess-nextid-mutex","C15 C16",[(S,'''	var id uint32
	for {
		id = atomic.LoadUint32(&session.next)
		if id == 0xff {
			if atomic.CompareAndSwapUint32(&session.next, id, 1) {
				id = 1
				break
			}
		} else if atomic.CompareAndSwapUint32(&session.next, id, id+1) {
			id += 1
			break
		}
	}
	return uint16(id)
''','''	session.mux.Lock()
	defer session.mux.Unlock()
	if session.next == 0xff {
		session.next = 0
	}
	session.next++
	return uint16(session.next)
''')])
quiet("sess-nextid-mod","C15",[(S,'''		if id == 0xff {
			if atomic.CompareAndSwapUint32(&session.next, id, 1) {
				id = 1
				break
			}
		} else if atomic.CompareAndSwapUint32(&session.next, id, id+1) {
			id += 1
			break
		}
''','''		next := id%0xff + 1
		if atomic.CompareAndSwapUint32(&session.next, id, next) {
			id = next
			break
		}
''')])
quiet("sess-take-append","C16",[(S,'''			session.requests[idx] = session.requests[len(session.requests)-1]
			session.requests = session.requests[:len(session.requests)-1]
			return item, true''','''			session.requests = append(session.requests[:idx], session.requests[idx+1:]...)
			return item, true''')])
quiet("sess-take-last","C16",[(S,'''			session.requests[idx] = session.requests[len(session.requests)-1]
			session.requests = session.requests[:len(session.requests)-1]
			return item, true''','''			last := len(session.requests) - 1
			session.requests[idx] = session.requests[last]
			session.requests[last] = requestContext{}
			session.requests = session.requests[:last]
			return item, true''')])
quiet("sess-take-explicit-unlock","C16",[(S,'''	session.mux.Lock()
	defer session.mux.Unlock()

	for idx, item := range session.requests {
		if item.serialNo == msgSerialNo {
			session.requests[idx] = session.requests[len(session.requests)-1]
			session.requests = session.requests[:len(session.requests)-1]
			return item, true
		}
	}
	return requestContext{}, false
''','''	session.mux.Lock()
	for i := 0; i < len(session.requests); i++ {
		item := session.requests[i]
		if item.serialNo != msgSerialNo {
			continue
		}
		n := len(session.requests) - 1
		session.requests[i] = session.requests[n]
		session.requests = session.requests[:n]
		session.mux.Unlock()
		return item, true
	}
	session.mux.Unlock()
	return requestContext{}, false
''')])
quiet("sess-find-helper","C16",[(S,'''	for idx, item := range session.requests {
		if item.msgID == ctx.msgID {
			session.requests[idx] = ctx
			return
		}
	}
	session.requests = append(session.requests, ctx)
}
''','''	if idx := session.indexByMsgID(ctx.msgID); idx >= 0 {
		session.requests[idx] = ctx
		return
	}
	session.requests = append(session.requests, ctx)
}

func (session *Session) indexByMsgID(msgID uint16) int {
	for idx := range session.requests {
		if session.requests[idx].msgID == msgID {
			return idx
		}
	}
	return -1
}
''')])
quiet("sess-message-helper","C16 C15",[(S,'''	ctx, ok := session.takeRequestContext(msgSerialNo)
	if ok {
		defer func() {
			if err := recover(); err != nil {
				debug.PrintStack()
			}
		}()
		ctx.callback(message)
	}
}
''','''	if ctx, ok := session.takeRequestContext(msgSerialNo); ok {
		ctx.answer(message)
	}
}

func (ctx requestContext) answer(message *protocol.Message) {
	defer func() {
		if err := recover(); err != nil {
			debug.PrintStack()
		}
	}()
	ctx.callback(message)
}
''')])
quiet("sess-serial-helper","C16 C15",[(S,'''	var msgSerialNo uint16
	switch message.Header.MsgID {
	case''','''	msgSerialNo := repliedSerialNo(message)
	if msgSerialNo == 0 {
		return
	}

	ctx, ok := session.takeRequestContext(msgSerialNo)
	if ok {
		defer func() {
			if err := recover(); err != nil {
				debug.PrintStack()
			}
		}()
		ctx.callback(message)
	}
}

func repliedSerialNo(message *protocol.Message) uint16 {
	var msgSerialNo uint16
	switch message.Header.MsgID {
	case'''),(S,'''	}
	if msgSerialNo == 0 {
		return
	}

	ctx, ok := session.takeRequestContext(msgSerialNo)
	if ok {
		defer func() {
			if err := recover(); err != nil {
				debug.PrintStack()
			}
		}()
		ctx.callback(message)
	}
}

// 添加''','''	}
	return msgSerialNo
}

// 添加''')])
quiet("sess-typeswitch","C16",[(S,'''	case protocol.MsgT808_0x0001:
		// 终端通用应答
		msgSerialNo = message.Body.(*protocol.T808_0x0001).ReplyMsgSerialNo
''','''	case protocol.MsgT808_0x0001:
		// 终端通用应答
		if body, ok := message.Body.(*protocol.T808_0x0001); ok {
			msgSerialNo = body.ReplyMsgSerialNo
		}
''')])
quiet("sess-request-order","C15 C16",[(S,'''	if _, err := session.send(entity, serialNo); err != nil {
		if cb != nil {
			session.takeRequestContext(serialNo)
		}
		return 0, err
	}
	return serialNo, nil
''','''	_, err := session.send(entity, serialNo)
	if err == nil {
		return serialNo, nil
	}
	if cb != nil {
		session.takeRequestContext(serialNo)
	}
	return 0, err
''')])
quiet("sess-reply-inline","C15 C19",[(S,'''	entity := protocol.T808_0x8001{
		ReplyMsgSerialNo: msg.Header.MsgSerialNo,
		ReplyMsgID:       msg.Header.MsgID,
		Result:           result,
	}
	return session.Send(&entity)
''','''	header := msg.Header
	return session.Send(&protocol.T808_0x8001{
		Result:           result,
		ReplyMsgID:       header.MsgID,
		ReplyMsgSerialNo: header.MsgSerialNo,
	})
''')])
quiet("sess-requests-map","C16",[(S,'''	requests []requestContext

	UserData''','''	requests map[uint16]requestContext

	UserData'''),(S,'''	for idx, item := range session.requests {
		if item.msgID == ctx.msgID {
			session.requests[idx] = ctx
			return
		}
	}
	session.requests = append(session.requests, ctx)
''','''	if session.requests == nil {
		session.requests = make(map[uint16]requestContext)
	}
	session.requests[ctx.msgID] = ctx
'''),(S,'''	for idx, item := range session.requests {
		if item.serialNo == msgSerialNo {
			session.requests[idx] = session.requests[len(session.requests)-1]
			session.requests = session.requests[:len(session.requests)-1]
			return item, true
		}
	}
''','''	for id, item := range session.requests {
		if item.serialNo == msgSerialNo {
			delete(session.requests, id)
			return item, true
		}
	}
''')])
T="timer.go"
quiet("timer-update-inplace","C17",[(T,'''	e := element{
		Key:    key,
		Expire: time.Now().Unix() + atomic.LoadInt64(&timer.seconds),
	}

	timer.mutex.Lock()
	defer timer.mutex.Unlock()
	timer.remove(key)
	heap.Push(timer.q, &e)
	timer.mapper[key] = &e
''','''	expire := time.Now().Unix() + atomic.LoadInt64(&timer.seconds)

	timer.mutex.Lock()
	defer timer.mutex.Unlock()
	if e, ok := timer.mapper[key]; ok {
		timer.q.Update(e, expire)
		return
	}
	e := &element{Key: key, Expire: expire}
	timer.mapper[key] = e
	heap.Push(timer.q, e)
''')])
quiet("timer-pop-helper","C17",[(T,'''			now := time.Now().Unix()
			keys := make([]string, 0)

			timer.mutex.Lock()
			for {
				if timer.q.Len() == 0 {
					break
				}

				top := timer.q.Top()
				if top == nil || top.Expire > now {
					break
				}
				timer.q.Remove(top)
				delete(timer.mapper, top.Key)
				keys = append(keys, top.Key)
			}
			timer.mutex.Unlock()

			if timer.callback != nil {
				for _, key := range keys {
					timer.callback(key)
				}
			}
		}
	}
}
''','''			timer.fire(timer.takeExpired(time.Now().Unix()))
		}
	}
}

func (timer *CountdownTimer) takeExpired(now int64) []string {
	timer.mutex.Lock()
	defer timer.mutex.Unlock()

	var keys []string
	for top := timer.q.Top(); top != nil && top.Expire <= now; top = timer.q.Top() {
		timer.q.Remove(top)
		delete(timer.mapper, top.Key)
		keys = append(keys, top.Key)
	}
	return keys
}

func (timer *CountdownTimer) fire(keys []string) {
	if timer.callback == nil {
		return
	}
	for _, key := range keys {
		timer.callback(key)
	}
}
''')])
V="server.go"
HN="session_handler.go"
quiet("srv-dispatch-helper","C19 C20",[(V,'''	defer func() {
		if err := recover(); err != nil {
			debug.PrintStack()
		}
	}()
	server.timer.Update(strconv.FormatUint(session.ID(), 10))
	handler.(MessageHandler)(session, message)
}
''','''	server.timer.Update(strconv.FormatUint(session.ID(), 10))
	callHandler(handler.(MessageHandler), session, message)
}

func callHandler(handler MessageHandler, session *Session, message *protocol.Message) {
	defer func() {
		if err := recover(); err != nil {
			debug.PrintStack()
		}
	}()
	handler(session, message)
}
''')])
quiet("srv-close-helper","C20",[(V,'''	if server.closeHandler != nil {
		func() {
			defer func() {
				if err := recover(); err != nil {
					debug.PrintStack()
				}
			}()
			server.closeHandler(session)
		}()
	}
''','''	server.notifyClosed(session)
'''),(V,'''// 处理读超时
''','''func (server *Server) notifyClosed(session *Session) {
	if server.closeHandler == nil {
		return
	}
	defer func() {
		if err := recover(); err != nil {
			debug.PrintStack()
		}
	}()
	server.closeHandler(session)
}

// 处理读超时
''')])
quiet("srv-close-order","C20",[(V,'''	server.mutex.Lock()
	delete(server.sessions, session.ID())
	server.mutex.Unlock()

	server.timer.Remove(strconv.FormatUint(session.ID(), 10))
''','''	id := session.ID()
	server.timer.Remove(strconv.FormatUint(id, 10))

	server.mutex.Lock()
	delete(server.sessions, id)
	server.mutex.Unlock()
''')])
quiet("hnd-single","C19 C20",[(HN,'''		if !handler.autoMergePacket || !message.Header.Property.IsEnablePacket() {
			session.message(&message)
			handler.server.dispatchMessage(session, &message)
			continue
		}

		// 处理分包消息
		entityPacket, ok := interface{}(message.Body).(protocol.EntityPacket)
		if !ok {
			session''','''		// 处理分包消息
		entityPacket, ok := message.Body.(protocol.EntityPacket)
		if !ok || !handler.autoMergePacket || !message.Header.Property.IsEnablePacket() {
			session''')])
quiet("hnd-deliver","C19 C20",[(HN,'''		if !handler.autoMergePacket || !message.Header.Property.IsEnablePacket() {
			session.message(&message)
			handler.server.dispatchMessage(session, &message)
			continue
		}
''','''		if !handler.autoMergePacket || !message.Header.Property.IsEnablePacket() {
			handler.deliver(session, &message)
			continue
		}
'''),(HN,'''		entityPacket.SetReader(reader)
		session.message(&message)
		handler.server.dispatchMessage(session, &message)
''','''		entityPacket.SetReader(reader)
		handler.deliver(session, &message)
'''),(HN,'''func (handler sessionHandler) HandleSession''','''func (handler sessionHandler) deliver(session *Session, message *protocol.Message) {
	session.message(message)
	handler.server.dispatchMessage(session, message)
}

func (handler sessionHandler) HandleSession''')])
quiet("hnd-register","C19 C20",[(HN,'''	handler.server.mutex.Lock()
	handler.server.sessions[sess.ID()] = session
	handler.server.mutex.Unlock()
	handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))
''','''	handler.server.addSession(session)
'''),(V,'''// 处理读超时
''','''func (server *Server) addSession(session *Session) {
	id := session.ID()
	server.mutex.Lock()
	server.sessions[id] = session
	server.mutex.Unlock()
	server.timer.Update(strconv.FormatUint(id, 10))
}

// 处理读超时
'''),(HN,'	"strconv"\n','')])
quiet("hnd-merge-helper","C19 C20",[(HN,'''		buf, err := ioutil.ReadAll(entityPacket.GetReader())
		if err != nil {
			log.WithFields(log.Fields{
				"iccid":  message.Header.IccID,
				"msgid":  fmt.Sprintf("0x%x", message.Header.MsgID),
				"seq":    message.Header.Packet.Seq,
				"reason": err,
			}).Warn("[JT/T 808] failed to read packet data")
			session.Reply(&message, protocol.T808_0x8001ResultFail)
			continue
		}

		err = multipartFile.Write(message.Header.Packet.Seq, buf)
		if err != nil {
			log''','''		if err := storePart(multipartFile, message.Header.Packet.Seq, entityPacket); err != nil {
			log'''),(HN,'''func (handler sessionHandler) HandleSession''','''func storePart(file MultipartFile, seq uint16, packet protocol.EntityPacket) error {
	buf, err := ioutil.ReadAll(packet.GetReader())
	if err != nil {
		return err
	}
	return file.Write(seq, buf)
}

func (handler sessionHandler) HandleSession''')])
