#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech])))

T = "protocol/t808_*.go"
prop("C01", "Every message body survives an encode/decode round trip",
 "For every registered message type and every value of it that the wire format can represent, encoding the body succeeds and decoding the produced bytes succeeds and yields an equal value (lists of every permitted length, every integer value, empty and full-width strings, every optional part, coordinates to the microdegree with their sign, times to the second). Absent and empty lists count as equal; a coordinate below zero sets its hemisphere flag, and the flag of an optional part ends up set exactly when the part is present.",
 ["inputs"], "all message types in the default registry x all representable values (counts up to the width of their count field, strings up to their field)",
 "One sample value per type is encoded and decoded; most tests do not compare the result, and no boundary value, empty list, optional part or year before 2010 is tried.",
 [T, "protocol/bufio.go", "protocol/helpers.go"],
 [("Encode/Decode of each entity", T), ("Writer and Reader primitives", "protocol/bufio.go")])
prop("C02", "Encoded bodies have the JT/T 808 wire layout",
 "For every registered message type and every representable value, the encoded body is exactly the JT/T 808-2013 layout: the fields in standard order, integers big-endian at their standard width, fixed-width text zero-padded on the right, text in GB18030, BCD digits packed two to a byte, and every count or length prefix equal to what follows it. Nothing precedes, follows or separates the fields.",
 ["inputs"], "all message types x all representable values",
 "The tests only feed an encoder's output to the matching decoder, so an error made on both sides, or in a byte the decoder ignores, is invisible; a real terminal would reject it.",
 [T, "protocol/bufio.go", "protocol/helpers.go"],
 [("Encode of each entity", T), ("Writer primitives", "protocol/bufio.go")])
prop("C03", "Decoding arbitrary bytes never panics and always terminates",
 "Whatever bytes arrive, decoding a frame, a header, a body of any registered type or a location extra returns normally, with a value or with an error: it never panics and never loops forever. When a body decoder succeeds, the number of bytes it reports as consumed lies between 0 and the number it was given.",
 ["inputs"], "all byte strings of all lengths, for every decoder",
 "Tests decode only well-formed bytes made by the encoder; truncated, oversized, empty and hostile inputs are never tried.",
 [T, "protocol/message.go", "protocol/header.go", "protocol/bufio.go", "protocol/helpers.go", "protocol/extra/*.go"],
 [("length guards and error returns", T), ("bounds checks of Reader", "protocol/bufio.go")])
prop("C04", "An accepted body is exactly what the bytes say",
 "Whenever a body decoder accepts a byte string, every field of the result equals the value the JT/T 808 layout assigns to that position of that byte string, every announced element is present, and nothing was read beyond the end. A body that ends before the fields or elements it announces is rejected, never completed with invented values.",
 ["inputs"], "all byte strings, including truncated bodies, bodies with surplus bytes, and counts or lengths larger than the data",
 "No test decodes anything but the encoder's own complete output.",
 [T, "protocol/bufio.go"],
 [("Decode of each entity", T), ("Reader primitives", "protocol/bufio.go")])
prop("C05", "Frames are transparent and round-trip",
 "Encoding a message whose body fits yields a frame that starts and ends with the flag byte 0x7E, contains no other 0x7E, escapes 0x7E and 0x7D as 0x7D 0x02 and 0x7D 0x01 and nothing else, and ends with the XOR of header and body. Decoding that frame returns the same header fields and body bytes for every content, including contents full of flag and escape bytes and a checksum that itself needs escaping.",
 ["inputs"], "all headers and all body byte strings up to 1023 bytes",
 "No test encodes or decodes a whole message frame at all.",
 ["protocol/message.go", "protocol/header.go", "protocol/const.go"],
 [("Message.Encode, write, computeChecksum", "protocol/message.go"), ("Message.Decode", "protocol/message.go")])
prop("C06", "Damaged frames are rejected",
 "A byte string is accepted as a frame only if it starts and ends with the flag byte, every escape byte inside is followed by 0x01 or 0x02, the XOR of the unescaped bytes before the checksum equals the checksum, and a complete header precedes the body. In particular any change of one unescaped byte of a frame's contents makes it rejected.",
 ["inputs", "fault_sequences"], "all byte strings",
 "No test decodes a corrupted frame.",
 ["protocol/message.go", "protocol/header.go"],
 [("delimiter, escape and checksum checks of Message.Decode", "protocol/message.go")])
prop("C07", "Message headers keep every field, and the attribute word its bits",
 "For every message id, serial number, terminal number of at most 12 digits, encryption bit, and sub-packet count and index, an encoded header decodes to the same values and has the standard 12- or 16-byte layout. The attribute word's low ten bits hold the body length, a body longer than 1023 bytes is refused with an error, and setting the length, the encryption bit or the sub-packet bit leaves all other bits unchanged.",
 ["inputs"], "all header values and all 65536 attribute words x all lengths",
 "No test encodes or decodes a header.",
 ["protocol/header.go", "protocol/property.go", "protocol/message.go", "protocol/helpers.go"],
 [("Header.Encode/Decode", "protocol/header.go"), ("Property accessors", "protocol/property.go")])
prop("C08", "Stream reassembly does not depend on how the bytes arrive",
 "However the incoming byte stream is cut into reads, the receiver delivers exactly the frames the concatenated stream contains, each once, in order, and bytes following a frame are kept for the next receive. A frame is taken from its first flag byte to the next one; a stream that does not start with the flag byte is an error, and receiving never waits for more input while a complete frame is buffered.",
 ["inputs", "schedules"], "all byte streams x all ways to split them into reads",
 "No test exercises the stream codec; splits inside an escape, several frames in one read and one frame over many reads are never tried.",
 ["protocol.go"],
 [("ProtocolCodec.Receive and readFromBuffer", "protocol.go")],
 [("bufferReceiving", "bytes received and not yet delivered", "protocol.go")])
prop("C09", "Each message id decodes to its own type; the rest arrive without body",
 "Every message id in the registry decodes to a fresh value of the type whose own id is that id, and values decoded from different frames share no memory with each other or with the receive buffer. A frame with an intact header whose id is unknown, whose body does not have the announced length or whose body is malformed is delivered with its header and without a body, and a body marked as encrypted is an error if it cannot be decrypted.",
 ["inputs"], "all 65536 ids x all bodies",
 "Tests call the entity types directly and never go through the registry.",
 ["protocol/register.go", "protocol/message.go", "protocol/extra/register.go"],
 [("entityMapper", "protocol/register.go"), ("Message.decode", "protocol/message.go")])
prop("C10", "Location extras are kept complete and in order",
 "A location report's additional items are encoded in order as id, length and data, and decoding returns every item of a known type, built in or registered, with its value, in order, whatever unknown items stand between them. A known item whose length does not match its type, or an item running past the end of the body, makes the report rejected rather than misread; each item type's value survives its own encoding.",
 ["inputs"], "all lists of additional items, known and unknown, of all lengths",
 "One test encodes one list of items and does not look at what was decoded.",
 ["protocol/t808_0x0200.go", "protocol/extra/*.go"],
 [("extras loops of T808_0x0200", "protocol/t808_0x0200.go"), ("extra.Decode and item types", "protocol/extra/*.go")])
prop("C11", "Coordinates keep their hemisphere and flags touch only their bit",
 "For every latitude and longitude on the microdegree grid, encoding writes the magnitude and sets the south or west flag exactly when the coordinate is negative or the caller had set it, leaving all other status and attribute bits alone, and decoding negates exactly the coordinates whose flag is set. Every flag accessor reads or changes only the bit it names.",
 ["inputs"], "all coordinates with |value| < 4294.967296 on the microdegree grid x all status words",
 "Tests use one northern and western position.",
 ["protocol/t808_0x0200.go", "protocol/t808_0x8600.go", "protocol/t808_0x8602.go", "protocol/t808_0x8604.go", "protocol/t808_0x8606.go", "protocol/bit.go", "protocol/helpers.go"],
 [("SetBit*/GetBit*", "protocol/bit.go"), ("getGeoPoint", "protocol/helpers.go")])
prop("C12", "BCD digits and timestamps survive the wire",
 "Every timestamp from 2000 to 2099, to the second, is written as twelve BCD digits YYMMDDhhmmss and read back as the same instant; every digit string that fits its field is written right-aligned, zero-padded on the left, and read back without its leading zeros. Bytes that are not six BCD digit pairs forming a valid time are rejected.",
 ["inputs"], "all seconds of 2000-2099, all digit strings of up to 20 digits",
 "Tests use the current time only, so no year below 2010 and no digit string with an odd length or leading zero pair is tried.",
 ["protocol/helpers.go", "protocol/bufio.go", "protocol/t808_0x0705.go"],
 [("stringToBCD, bcdToString, toBCDTime, fromBCDTime", "protocol/helpers.go")])
prop("C13", "Terminal parameters return what was stored",
 "A terminal parameter set to a byte, 16-bit, 32-bit, byte-string or text value returns the same id and the same value when read back as that kind, before and after travelling in a message, and is independent of the caller's buffer. Reading a parameter as a kind longer than its data returns an error and never panics.",
 ["inputs"], "all ids, kinds and values",
 "Two tests store a few values and compare whole structs; mismatched kinds and mutation after the call are not tried.",
 ["protocol/params.go", "protocol/t808_0x0104.go", "protocol/t808_0x8103.go"],
 [("Param setters and getters", "protocol/params.go")])
prop("C14", "Encrypted bodies decrypt to the original",
 "Splitting a body for RSA-OAEP keeps every byte exactly once and in order in chunks that each fit the key, so encrypting a body with a terminal's public key and decrypting with its private key gives the original bytes for every length, including the empty body and exact multiples of the chunk size. A key too small to carry any data is an error, never a panic or an endless loop.",
 ["inputs"], "all body lengths and all key sizes",
 "No test encrypts anything.",
 ["protocol/helpers.go", "protocol/message.go"],
 [("EncryptOAEP, DecryptOAEP, bytesSplit", "protocol/helpers.go")])
prop("C15", "Message serial numbers are never zero and never repeat nearby",
 "Every message a session sends gets a serial number from 1 to 255, the successor of the one allotted before it (255 is followed by 1), whichever goroutines send concurrently, so any 255 consecutive sends have distinct, non-zero serial numbers. The number returned to the caller is the one in the sent header, next to the body's own message id and the terminal's number.",
 ["schedules", "histories"], "all interleavings of concurrent senders and all send histories",
 "No test sends from a session; races between loading and swapping the counter cannot be sampled reliably.",
 ["session.go"],
 [("nextID compare-and-swap loop", "session.go"), ("Session.Send", "session.go")],
 [("next", "last allotted serial number", "session.go")])
prop("C16", "A response reaches exactly the request it answers",
 "When a response arrives, the callback registered for the request with that serial number is called once with that response and forgotten, all other pending requests stay pending, and a response that matches no pending request calls nothing. A newer request with the same message id replaces the older one, a request that could not be sent is not pending, and a panicking callback does not take the session down.",
 ["histories", "schedules", "inputs"], "all sequences of requests and responses, from any goroutines",
 "No test registers or answers a request.",
 ["session.go"],
 [("addRequestContext/takeRequestContext under the mutex", "session.go"), ("Session.message", "session.go")],
 [("requests", "pending requests, at most one per message id", "session.go")])
prop("C17", "The idle timer fires once per expired key and never for live ones",
 "After a key is updated it is pending exactly once, with a deadline of the configured number of seconds from the update; after it is removed it is not pending. A check reports exactly the keys whose deadline has passed, each once, and forgets them, for every sequence and interleaving of updates, removals and checks.",
 ["schedules", "histories"], "all interleavings of Update, Remove, SetExpiration and the periodic check",
 "No test uses the timer; a lost or doubled entry needs a particular interleaving or heap shape.",
 ["timer.go"],
 [("CountdownTimer under its mutex", "timer.go"), ("expirationQueue heap operations", "timer.go")],
 [("q, mapper", "pending elements as a heap and by key; they hold the same elements", "timer.go")])
prop("C18", "Merging sub-packets yields the parts, complete and in order",
 "A multi-packet upload is complete only when every part from 1 to the announced count has been stored under the same terminal, message id and tag, in whatever order and however often parts arrive. Merging then yields exactly the concatenation of the latest content of parts 1 to the count in numerical order, unaffected by earlier uploads, other terminals, other messages or other tags.",
 ["histories", "inputs"], "all arrival orders, repetitions, part contents and leftovers of earlier uploads",
 "One test stores three parts and does not look at the merged bytes.",
 ["multipart.go"],
 [("Write, IsFull, Merge, walkParts", "multipart.go")])
prop("C19", "Every received message is answered or dispatched as configured",
 "For each received message the server does exactly one of: reply 'unsupported' (body absent), hand it to pending requests and then to the handler registered for its id, or, when merging is on and it is a sub-packet, store it and reply success or failure, dispatching the merged message once the upload is complete. The general reply carries the message's own serial number and id, and a panicking handler neither stops the session nor the server.",
 ["inputs", "histories"], "all message sequences, merge settings and storage failures",
 "No test runs a server or a session handler.",
 ["session_handler.go", "server.go", "session.go"],
 [("sessionHandler.HandleSession", "session_handler.go"), ("Server.dispatchMessage", "server.go"), ("Session.Reply", "session.go")])
prop("C20", "The session table holds exactly the live sessions",
 "A session can be looked up by its id from the moment it is accepted until it is closed and not afterwards; closing removes only that session and its timer and calls the close handler once, even if that handler panics. A broadcast sends to every session in the table and returns how many sends succeeded, and a read timeout closes the session with that id and no other. A session's idle period starts when it is accepted, and each message dispatched to a handler restarts it.",
 ["histories", "schedules"], "all sequences of accepts, closes, timeouts, lookups and broadcasts",
 "No test creates a session.",
 ["server.go", "session_handler.go"],
 [("GetSession, handleClose, Broadcast, handleReadTimeout", "server.go")],
 [("sessions", "live sessions by id", "server.go")])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
