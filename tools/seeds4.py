import sys; sys.path.insert(0,"/verif/tools")
from mkseed import seed
F='multipart.go'
HEAD='''package go808_test
import ("testing";"bytes";"io";"os";"fmt";"gitee.com/coco/go808")
func scratch(t *testing.T) {
	dir, err := os.MkdirTemp("", "demo")
	if err != nil { t.Fatal(err) }
	t.Cleanup(func() { os.RemoveAll(dir) })
	t.Setenv("TMPDIR", dir)
}
func upload(t *testing.T, m go808.MultipartFile, n int, part func(i int) []byte) {
	var want []byte
	for i := n; i >= 1; i-- {
		if err := m.Write(uint16(i), part(i)); err != nil { t.Fatal(err) }
	}
	for i := 1; i <= n; i++ { want = append(want, part(i)...) }
	if !m.IsFull() { t.Fatal("not full") }
	r, err := m.Merge()
	if err != nil { t.Fatal(err) }
	got, _ := io.ReadAll(r)
	r.Close()
	if !bytes.Equal(got, want) { t.Fatalf("got %q want %q", got, want) }
}
var _ = fmt.Sprint
'''
seed("S20","C18","an upload of ten or more parts","parts are merged in the order of their file names, so that part 10 comes before part 2",
[(F,"p[i].seq < p[j].seq","p[i].path < p[j].path")],
HEAD+'''
func TestDemo(t *testing.T) {
	scratch(t)
	upload(t, go808.MultipartFile{IccID: 5, MsgID: 0x801, Tag: 9, Sum: 12}, 12, func(i int) []byte { return []byte(fmt.Sprintf("<%d>", i)) })
}
''',pkg="root")
seed("S22","C18","two uploads of one terminal whose tags differ by a multiple of 65536","parts of another upload count towards this one",
[(F,"uint32(tag) != m.Tag","uint16(tag) != uint16(m.Tag)")],
HEAD+'''
func TestDemo(t *testing.T) {
	scratch(t)
	a := go808.MultipartFile{IccID: 5, MsgID: 0x801, Tag: 1, Sum: 2}
	b := go808.MultipartFile{IccID: 5, MsgID: 0x801, Tag: 65537, Sum: 2}
	a.Write(1, []byte("a1"))
	b.Write(2, []byte("b2"))
	if a.IsFull() || b.IsFull() { t.Fatal("full with one part of two") }
}
''',pkg="root")
