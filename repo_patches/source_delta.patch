From 924666ce808c788782f72544f57b19cc5c274fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:09 +0000
Subject: [PATCH 01/19] fix: Message.Decode panics on a frame with one content
 byte and accepts a bare escape byte as checksum

---
 protocol/message.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 7743151..faf176f 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -77,7 +77,10 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 
 	// 获取校验和
 	sum := data[len(data)-1]
-	if data[len(data)-2] != EscapeByte {
+	if len(data) < 2 || data[len(data)-2] != EscapeByte {
+		if sum == EscapeByte {
+			return errors.ErrInvalidMessage
+		}
 		data = data[:len(data)-1]
 	} else {
 		if (data[len(data)-1]) == EscapeByteSufix1 {
-- 
2.43.0


From 6ab18a4d7fbcbd71bb3b40dea2745ade9cab1a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:09 +0000
Subject: [PATCH 02/19] fix: Message.Encode panics when the message has no body

---
 protocol/message.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index faf176f..018d5af 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -44,7 +44,9 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 	checkSum, count = message.computeChecksum(body, checkSum, count)
 
 	// 编码消息头
-	message.Header.MsgID = message.Body.MsgID()
+	if message.Body != nil {
+		message.Header.MsgID = message.Body.MsgID()
+	}
 	err = message.Header.Property.SetBodySize(uint16(len(body)))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 362bb09ad4f60252ed9e9eaa74101924321e4f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:09 +0000
Subject: [PATCH 03/19] fix: body lengths of 65536 and more are compared modulo
 65536 with the announced length

---
 protocol/message.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 018d5af..97ab00f 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -47,6 +47,9 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 	if message.Body != nil {
 		message.Header.MsgID = message.Body.MsgID()
 	}
+	if len(body) > 0xffff {
+		return nil, errors.ErrBodyTooLong
+	}
 	err = message.Header.Property.SetBodySize(uint16(len(body)))
 	if err != nil {
 		return nil, err
@@ -145,7 +148,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 	}
 
 	// 解码消息体
-	if uint16(len(buffer)) != header.Property.GetBodySize() {
+	if len(buffer) != int(header.Property.GetBodySize()) {
 		log.WithFields(log.Fields{
 			"id":     fmt.Sprintf("0x%x", header.MsgID),
 			"expect": header.Property.GetBodySize(),
-- 
2.43.0


From 4abf8bf34092d64ee94a65f067f75fbd99ccb166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:09 +0000
Subject: [PATCH 04/19] fix: Header.Encode panics when the packet bit is set
 without packet information

---
 protocol/header.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/protocol/header.go b/protocol/header.go
index 692d3f4..8ba34b5 100644
--- a/protocol/header.go
+++ b/protocol/header.go
@@ -30,6 +30,8 @@ func (header *Header) Encode() ([]byte, error) {
 	// 写入消息体属性
 	if header.Packet != nil {
 		header.Property.enablePacket()
+	} else if header.Property.IsEnablePacket() {
+		return nil, errors.ErrInvalidHeader
 	}
 	writer.WriteUint16(uint16(header.Property))
 
-- 
2.43.0


From 8d82dfb619fb7f9a9fa72eb97ae67793eb319cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:09 +0000
Subject: [PATCH 05/19] fix: timestamps of the years 2000 to 2009 and CAN times
 before 01:00 are rejected because leading zero BCD bytes are dropped

---
 protocol/helpers.go     | 4 ++--
 protocol/t808_0x0702.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/protocol/helpers.go b/protocol/helpers.go
index 2c463f1..a40a733 100644
--- a/protocol/helpers.go
+++ b/protocol/helpers.go
@@ -90,7 +90,7 @@ func stringToBCD(s string, size ...int) []byte {
 
 // BCD转字符串
 func bcdToString(data []byte, ignorePadding ...bool) string {
-	for {
+	for len(ignorePadding) == 0 || !ignorePadding[0] {
 		if len(data) == 0 {
 			return ""
 		}
@@ -129,7 +129,7 @@ func fromBCDTime(bcd []byte) (time.Time, error) {
 		return time.Time{}, errors.ErrInvalidBCDTime
 	}
 	t, err := time.ParseInLocation(
-		"20060102150405", "20"+bcdToString(bcd), time.Local)
+		"20060102150405", "20"+bcdToString(bcd, true), time.Local)
 	if err != nil {
 		return time.Time{}, err
 	}
diff --git a/protocol/t808_0x0702.go b/protocol/t808_0x0702.go
index 2c0de10..4587abe 100644
--- a/protocol/t808_0x0702.go
+++ b/protocol/t808_0x0702.go
@@ -141,7 +141,7 @@ func (entity *T808_0x0702) Decode(data []byte) (int, error) {
 		return 0, err
 	}
 	entity.ExpiryDate, err = time.ParseInLocation(
-		"20060102150405", bcdToString(bcd)+"000000", time.Local)
+		"20060102150405", bcdToString(bcd, true)+"000000", time.Local)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 829459f458fc65cbdf514c3b215c6efb35220290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:09 +0000
Subject: [PATCH 06/19] fix: Header.Decode rejects the all-zero terminal number
 that Header.Encode writes

---
 protocol/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/header.go b/protocol/header.go
index 8ba34b5..670cacc 100644
--- a/protocol/header.go
+++ b/protocol/header.go
@@ -73,7 +73,7 @@ func (header *Header) Decode(data []byte) error {
 	if err != nil {
 		return errors.ErrInvalidHeader
 	}
-	iccID, err := strconv.ParseUint(bcdToString(temp), 10, 64)
+	iccID, err := strconv.ParseUint(bcdToString(temp, true), 10, 64)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d5cae5734a2008214715bfea58b84deab32541c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:09 +0000
Subject: [PATCH 07/19] fix: T808_0x0705.Decode turns bytes that are not BCD
 digits into an invented time

---
 protocol/t808_0x0705.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/protocol/t808_0x0705.go b/protocol/t808_0x0705.go
index 0bea529..e48ac6f 100644
--- a/protocol/t808_0x0705.go
+++ b/protocol/t808_0x0705.go
@@ -75,10 +75,22 @@ func (entity *T808_0x0705) Decode(data []byte) (int, error) {
 	if len(s) != 10 {
 		return 0, errors.New("invalid BTC time")
 	}
-	hour, _ := strconv.Atoi(s[0:2])
-	minute, _ := strconv.Atoi(s[2:4])
-	second, _ := strconv.Atoi(s[4:6])
-	millisecond, _ := strconv.Atoi(s[6:10])
+	hour, err := strconv.Atoi(s[0:2])
+	if err != nil {
+		return 0, err
+	}
+	minute, err := strconv.Atoi(s[2:4])
+	if err != nil {
+		return 0, err
+	}
+	second, err := strconv.Atoi(s[4:6])
+	if err != nil {
+		return 0, err
+	}
+	millisecond, err := strconv.Atoi(s[6:10])
+	if err != nil {
+		return 0, err
+	}
 	entity.ReceiveTime = time.Duration(hour)*time.Hour +
 		time.Duration(minute)*time.Minute +
 		time.Duration(second)*time.Second +
-- 
2.43.0


From aa832ec079d6a0fc434f9cef4c6ef92d764cb72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:09 +0000
Subject: [PATCH 08/19] fix: bodies with an empty parameter, area or vertex
 list are rejected by a minimum-length check

---
 protocol/t808_0x0104.go | 2 +-
 protocol/t808_0x8103.go | 2 +-
 protocol/t808_0x8600.go | 2 +-
 protocol/t808_0x8602.go | 2 +-
 protocol/t808_0x8604.go | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/protocol/t808_0x0104.go b/protocol/t808_0x0104.go
index edad69e..bcc3aa8 100644
--- a/protocol/t808_0x0104.go
+++ b/protocol/t808_0x0104.go
@@ -36,7 +36,7 @@ func (entity *T808_0x0104) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x0104) Decode(data []byte) (int, error) {
-	if len(data) <= 3 {
+	if len(data) < 3 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8103.go b/protocol/t808_0x8103.go
index 308671c..a7802b9 100644
--- a/protocol/t808_0x8103.go
+++ b/protocol/t808_0x8103.go
@@ -31,7 +31,7 @@ func (entity *T808_0x8103) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8103) Decode(data []byte) (int, error) {
-	if len(data) <= 3 {
+	if len(data) < 1 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8600.go b/protocol/t808_0x8600.go
index dbe09e3..9f460b6 100644
--- a/protocol/t808_0x8600.go
+++ b/protocol/t808_0x8600.go
@@ -148,7 +148,7 @@ func (entity *T808_0x8600) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8600) Decode(data []byte) (int, error) {
-	if len(data) < 20 {
+	if len(data) < 2 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8602.go b/protocol/t808_0x8602.go
index 9a6daa5..9a0bd30 100644
--- a/protocol/t808_0x8602.go
+++ b/protocol/t808_0x8602.go
@@ -113,7 +113,7 @@ func (entity *T808_0x8602) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8602) Decode(data []byte) (int, error) {
-	if len(data) < 24 {
+	if len(data) < 2 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8604.go b/protocol/t808_0x8604.go
index 80400f5..109a040 100644
--- a/protocol/t808_0x8604.go
+++ b/protocol/t808_0x8604.go
@@ -94,7 +94,7 @@ func (entity *T808_0x8604) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8604) Decode(data []byte) (int, error) {
-	if len(data) < 16 {
+	if len(data) < 8 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
-- 
2.43.0


From 4644afc1724101ebbc8cef241779eb3631693f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:09 +0000
Subject: [PATCH 09/19] fix: T808_0x0901.Decode accepts damaged or truncated
 compressed data as complete

---
 protocol/t808_0x0901.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/t808_0x0901.go b/protocol/t808_0x0901.go
index 81dd7e6..4648008 100644
--- a/protocol/t808_0x0901.go
+++ b/protocol/t808_0x0901.go
@@ -63,7 +63,7 @@ func (entity *T808_0x0901) Decode(data []byte) (int, error) {
 	for {
 		n, err := gzipReader.Read(temp[:])
 		if err != nil && err != io.EOF {
-			break
+			return 0, err
 		}
 
 		if n > 0 {
-- 
2.43.0


From 131b68b7c9186700e086bf1c3ac238415c361160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:40 +0000
Subject: [PATCH 10/19] fix: re-encoding a decoded location report drops the
 data of its extras

---
 protocol/extra/0x01.go | 1 +
 protocol/extra/0x02.go | 1 +
 protocol/extra/0x03.go | 1 +
 protocol/extra/0x04.go | 1 +
 protocol/extra/0x11.go | 2 ++
 protocol/extra/0x12.go | 1 +
 protocol/extra/0x13.go | 1 +
 protocol/extra/0x25.go | 1 +
 protocol/extra/0x2a.go | 1 +
 protocol/extra/0x2b.go | 1 +
 protocol/extra/0x30.go | 1 +
 protocol/extra/0x31.go | 1 +
 12 files changed, 13 insertions(+)

diff --git a/protocol/extra/0x01.go b/protocol/extra/0x01.go
index fd4922b..f4921fc 100644
--- a/protocol/extra/0x01.go
+++ b/protocol/extra/0x01.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x01) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x02.go b/protocol/extra/0x02.go
index 479c464..9702b2c 100644
--- a/protocol/extra/0x02.go
+++ b/protocol/extra/0x02.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x02) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x03.go b/protocol/extra/0x03.go
index d1d862e..8cc30f4 100644
--- a/protocol/extra/0x03.go
+++ b/protocol/extra/0x03.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x03) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x04.go b/protocol/extra/0x04.go
index 219fe5b..c3123be 100644
--- a/protocol/extra/0x04.go
+++ b/protocol/extra/0x04.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x04) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x11.go b/protocol/extra/0x11.go
index 9b8cb9d..6361e0d 100644
--- a/protocol/extra/0x11.go
+++ b/protocol/extra/0x11.go
@@ -52,6 +52,7 @@ func (extra *Extra_0x11) Decode(data []byte) (int, error) {
 	extra.value.AreaID = nil
 	extra.value.Type = data[0]
 	if extra.value.Type == 0 {
+		extra.serialized = append([]byte(nil), data[:1]...)
 		return 1, nil
 	}
 
@@ -60,5 +61,6 @@ func (extra *Extra_0x11) Decode(data []byte) (int, error) {
 	}
 	areaID := binary.BigEndian.Uint32(data[1:])
 	extra.value.AreaID = &areaID
+	extra.serialized = append([]byte(nil), data[:5]...)
 	return 5, nil
 }
diff --git a/protocol/extra/0x12.go b/protocol/extra/0x12.go
index fd823d7..23a8b95 100644
--- a/protocol/extra/0x12.go
+++ b/protocol/extra/0x12.go
@@ -56,5 +56,6 @@ func (extra *Extra_0x12) Decode(data []byte) (int, error) {
 	extra.value.Type = data[0]
 	extra.value.AreaID = binary.BigEndian.Uint32(data[1:5])
 	extra.value.Direction = data[5]
+	extra.serialized = append([]byte(nil), data[:6]...)
 	return 6, nil
 }
diff --git a/protocol/extra/0x13.go b/protocol/extra/0x13.go
index 507ddd8..39d8a8c 100644
--- a/protocol/extra/0x13.go
+++ b/protocol/extra/0x13.go
@@ -57,5 +57,6 @@ func (extra *Extra_0x13) Decode(data []byte) (int, error) {
 	extra.value.RoadID = binary.BigEndian.Uint32(data[:4])
 	extra.value.Duration = binary.BigEndian.Uint16(data[4:6])
 	extra.value.Result = data[6]
+	extra.serialized = append([]byte(nil), data[:7]...)
 	return 7, nil
 }
diff --git a/protocol/extra/0x25.go b/protocol/extra/0x25.go
index ff53a52..2b85477 100644
--- a/protocol/extra/0x25.go
+++ b/protocol/extra/0x25.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x25) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x2a.go b/protocol/extra/0x2a.go
index c7fd0c1..345010f 100644
--- a/protocol/extra/0x2a.go
+++ b/protocol/extra/0x2a.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x2A) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x2b.go b/protocol/extra/0x2b.go
index 1b49621..6c56444 100644
--- a/protocol/extra/0x2b.go
+++ b/protocol/extra/0x2b.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x2B) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x30.go b/protocol/extra/0x30.go
index cfdd4f5..56122e9 100644
--- a/protocol/extra/0x30.go
+++ b/protocol/extra/0x30.go
@@ -35,5 +35,6 @@ func (extra *Extra_0x30) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = data[0]
+	extra.serialized = append([]byte(nil), data[:1]...)
 	return 1, nil
 }
diff --git a/protocol/extra/0x31.go b/protocol/extra/0x31.go
index d43f67c..2bc0187 100644
--- a/protocol/extra/0x31.go
+++ b/protocol/extra/0x31.go
@@ -35,5 +35,6 @@ func (extra *Extra_0x31) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = data[0]
+	extra.serialized = append([]byte(nil), data[:1]...)
 	return 1, nil
 }
-- 
2.43.0


From bfddf35a30324638154a4ab085ddbac1f55302db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:40 +0000
Subject: [PATCH 11/19] fix: EncryptOAEP panics or loops forever with a key too
 small to carry data

---
 protocol/helpers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/protocol/helpers.go b/protocol/helpers.go
index a40a733..1dc03b4 100644
--- a/protocol/helpers.go
+++ b/protocol/helpers.go
@@ -13,7 +13,11 @@ import (
 // 使用RSA-OAEP加密
 func EncryptOAEP(hash hash.Hash, pub *rsa.PublicKey, msg []byte, label []byte) ([]byte, error) {
 	buffer := bytes.NewBuffer(nil)
-	chunks := bytesSplit(msg, pub.Size()-2*hash.Size()-2)
+	limit := pub.Size() - 2*hash.Size() - 2
+	if limit <= 0 {
+		return nil, rsa.ErrMessageTooLong
+	}
+	chunks := bytesSplit(msg, limit)
 	for _, chunk := range chunks {
 		ciphertext, err := rsa.EncryptOAEP(hash, rand.Reader, pub, chunk, label)
 		if err != nil {
-- 
2.43.0


From 1deb1b6f5605cdd59e2b47ff08e1a498aaf06553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:40 +0000
Subject: [PATCH 12/19] fix: concurrent CountdownTimer.Update calls leave a key
 pending more than once

---
 timer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timer.go b/timer.go
index b815b81..f72b8c3 100644
--- a/timer.go
+++ b/timer.go
@@ -89,10 +89,10 @@ func (timer *CountdownTimer) Update(key string) {
 		Key:    key,
 		Expire: time.Now().Unix() + atomic.LoadInt64(&timer.seconds),
 	}
-	timer.Remove(key)
 
 	timer.mutex.Lock()
 	defer timer.mutex.Unlock()
+	timer.remove(key)
 	heap.Push(timer.q, &e)
 	timer.mapper[key] = &e
 }
@@ -101,7 +101,10 @@ func (timer *CountdownTimer) Update(key string) {
 func (timer *CountdownTimer) Remove(key string) {
 	timer.mutex.Lock()
 	defer timer.mutex.Unlock()
+	timer.remove(key)
+}
 
+func (timer *CountdownTimer) remove(key string) {
 	element, ok := timer.mapper[key]
 	if !ok {
 		return
-- 
2.43.0


From dee052db0b04a257c479bba222fccb10e47935a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:40 +0000
Subject: [PATCH 13/19] fix: MultipartFile.Merge leaves the tail of an earlier,
 longer upload in the merged file

---
 multipart.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 654713a..7049138 100644
--- a/multipart.go
+++ b/multipart.go
@@ -71,7 +71,7 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 
 	sep := filepath.Separator
 	full := fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), sep, m.MsgID, m.Tag)
-	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE, 0644)
+	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 0dbad83d21a4bae3b0631a88e21a883d30f79a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:40 +0000
Subject: [PATCH 14/19] fix: the part directory is created without search
 permission

---
 multipart.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 7049138..650a26d 100644
--- a/multipart.go
+++ b/multipart.go
@@ -96,7 +96,7 @@ func (m MultipartFile) rootDir() string {
 // 写入分包文件
 func (m MultipartFile) Write(seq uint16, data []byte) error {
 	dir := m.rootDir()
-	if err := os.MkdirAll(dir, 0644); err != nil {
+	if err := os.MkdirAll(dir, 0755); err != nil {
 		return err
 	}
 	sep := filepath.Separator
-- 
2.43.0


From 6b49495a3cf452b009c58af4d1a990cf2ebd7ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:40 +0000
Subject: [PATCH 15/19] fix: MultipartFile.IsFull and Merge panic when no part
 has been stored yet

---
 multipart.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/multipart.go b/multipart.go
index 650a26d..9410726 100644
--- a/multipart.go
+++ b/multipart.go
@@ -109,6 +109,12 @@ func (m MultipartFile) walkParts(walkFn func(path string, seq uint16) error) err
 	dir := m.rootDir()
 	id := strconv.Itoa(int(m.MsgID))
 	return filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
+		if err != nil {
+			if os.IsNotExist(err) {
+				return nil
+			}
+			return err
+		}
 		if info.IsDir() {
 			return nil
 		}
-- 
2.43.0


From dbd070fc65740ecf8c9b70266f799501f07f2462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:40 +0000
Subject: [PATCH 16/19] fix: MultipartFile.Merge mixes parts of an earlier
 upload into a later one

---
 multipart.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/multipart.go b/multipart.go
index 9410726..d7be61f 100644
--- a/multipart.go
+++ b/multipart.go
@@ -51,6 +51,9 @@ func (m MultipartFile) IsFull() bool {
 func (m MultipartFile) Merge() (io.ReadCloser, error) {
 	inputs := make(partFileSlice, 0)
 	err := m.walkParts(func(path string, seq uint16) error {
+		if seq < 1 || seq > m.Sum {
+			return nil
+		}
 		f, err := os.OpenFile(path, os.O_RDONLY, 0644)
 		if err != nil {
 			return err
@@ -83,6 +86,9 @@ func (m MultipartFile) Merge() (io.ReadCloser, error) {
 			return nil, err
 		}
 	}
+	for _, part := range inputs {
+		os.Remove(part.path)
+	}
 	return os.OpenFile(full, os.O_RDONLY, 0644)
 }
 
-- 
2.43.0


From 867da38a8397148ddab9a3abb62a947fe37ef3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:40 +0000
Subject: [PATCH 17/19] fix: a multi-packet upload whose last part arrives out
 of order is never dispatched

---
 session_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session_handler.go b/session_handler.go
index 9161c84..efd7717 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -91,7 +91,7 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 		}
 
 		session.Reply(&message, protocol.T808_0x8001ResultSuccess)
-		if message.Header.Packet.Seq != message.Header.Packet.Sum || !multipartFile.IsFull() {
+		if !multipartFile.IsFull() {
 			continue
 		}
 
-- 
2.43.0


From d4c7932f8bc5e566776d0ea7ccc493fee4968537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:53 +0000
Subject: [PATCH 18/19] fix: a response that arrives before Session.Request
 returns finds no pending request

---
 session.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/session.go b/session.go
index 0cf29a1..5817eac 100644
--- a/session.go
+++ b/session.go
@@ -68,12 +68,17 @@ func (session *Session) SetPublicKey(publicKey *rsa.PublicKey) {
 
 // 发送消息
 func (session *Session) Send(entity protocol.Entity) (uint16, error) {
+	return session.send(entity, session.nextID())
+}
+
+// 以指定流水号发送消息
+func (session *Session) send(entity protocol.Entity, serialNo uint16) (uint16, error) {
 	message := protocol.Message{
 		Body: entity,
 		Header: protocol.Header{
 			MsgID:       entity.MsgID(),
 			IccID:       atomic.LoadUint64(&session.iccID),
-			MsgSerialNo: session.nextID(),
+			MsgSerialNo: serialNo,
 		},
 	}
 
@@ -96,11 +101,8 @@ func (session *Session) Reply(msg *protocol.Message, result protocol.Result) (ui
 
 // 发起请求
 func (session *Session) Request(entity protocol.Entity, cb func(answer *protocol.Message)) (uint16, error) {
-	serialNo, err := session.Send(entity)
-	if err != nil {
-		return 0, err
-	}
-
+	// 先登记再发送, 应答可能在发送返回之前到达
+	serialNo := session.nextID()
 	if cb != nil {
 		session.addRequestContext(requestContext{
 			msgID:    uint16(entity.MsgID()),
@@ -108,6 +110,13 @@ func (session *Session) Request(entity protocol.Entity, cb func(answer *protocol
 			callback: cb,
 		})
 	}
+
+	if _, err := session.send(entity, serialNo); err != nil {
+		if cb != nil {
+			session.takeRequestContext(serialNo)
+		}
+		return 0, err
+	}
 	return serialNo, nil
 }
 
-- 
2.43.0


From 72771ea85d7be0f84bfa681209e0d633cea0c429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:22 +0000
Subject: [PATCH 19/19] fix: a session closed before its close callback is
 registered stays in the session table

---
 session_handler.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/session_handler.go b/session_handler.go
index efd7717..2628c87 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"reflect"
 	"strconv"
+	"sync"
 )
 
 // Session处理
@@ -27,9 +28,17 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 	handler.server.sessions[sess.ID()] = session
 	handler.server.mutex.Unlock()
 	handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))
-	sess.AddCloseCallback(nil, nil, func() {
-		handler.server.handleClose(session)
-	})
+	var once sync.Once
+	onClose := func() {
+		once.Do(func() {
+			handler.server.handleClose(session)
+		})
+	}
+	sess.AddCloseCallback(nil, nil, onClose)
+	if sess.IsClosed() {
+		// 连接在登记回调之前已关闭, 回调不会被触发
+		onClose()
+	}
 
 	for {
 		// 接收消息
-- 
2.43.0

