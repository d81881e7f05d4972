import sys; sys.path.insert(0,"/verif/tools")
from mkseed import seed
seed("S21","C08","a read that returns exactly 128 bytes ending with a complete frame, after which the peer waits for the answer","the receiver reads on although a complete frame is buffered",
[('protocol.go',"		if codec.bufferReceiving.Len() == 0 {\n			continue","		if codec.bufferReceiving.Len() == 0 || count == len(buffer) {\n			continue")],
'''package go808_test
import ("testing";"net";"time";"bytes";"gitee.com/coco/go808";"gitee.com/coco/go808/protocol")
func frame(t *testing.T, n int) []byte {
	m := protocol.Message{Header: protocol.Header{IccID: 123, MsgSerialNo: 5}, Body: &protocol.T808_0x0900{Type: 1, Data: bytes.Repeat([]byte{1}, n)}}
	b, err := m.Encode()
	if err != nil { t.Fatal(err) }
	return b
}
func TestDemo(t *testing.T) {
	for n := 1; n < 120; n++ {
		b := frame(t, n)
		a, c := net.Pipe()
		codec, err := go808.Protocol{}.NewCodec(a)
		if err != nil { t.Fatal(err) }
		done := make(chan error, 1)
		go func() { _, err := codec.Receive(); done <- err }()
		go c.Write(b)
		select {
		case err := <-done:
			if err != nil { t.Fatal(err) }
		case <-time.After(5 * time.Second):
			t.Fatalf("a complete frame of %d bytes is not delivered", len(b))
		}
		a.Close(); c.Close()
	}
}
''',pkg="root")
