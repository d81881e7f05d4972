package HARNESS

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync/atomic"
	"time"

	"gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
)

func init() {
	vdrivers = append(vdrivers,
		vdriver{name: "multipart", props: "C18", n: 500, slow: true, par: true, run: drvMultipart},
		vdriver{name: "multipartfail", props: "C18", n: 4, slow: true, par: true, run: drvMultipartFail},
		vdriver{name: "hugemultipart", props: "C18", n: 1, slow: true, par: true, run: drvHugeMultipart},
		vdriver{name: "bigmultipart", props: "C18", n: 6, slow: true, par: true, run: drvBigMultipart},
	)
}

var mpIcc uint64 = 20000000000

type mpKey struct {
	icc uint64
	msg protocol.MsgID
	tag uint32
}

// drvMultipart: random interleaved uploads against a model of the stored parts.
func drvMultipart(c *vc) {
	// terminals of this case: numbers of which one is a prefix of the other
	base := atomic.AddUint64(&mpIcc, 1)
	iccs := []uint64{base, base*10 + 1, base * 10, base + 1<<32, base | 1<<63}
	msgs := []protocol.MsgID{0x0801, 0x0001, 0x0011, 0x0111, 0x0800, 1, 0xffff}
	tags := []uint32{0, 1, 11, 12, 111, 2, 0xffffffff, 0x80000000, 0x7fffffff, 1 << 16, 1<<16 + 1, uint32(c.uint(32))}
	model := map[mpKey]map[uint16][]byte{}
	dead := map[mpKey]bool{}
	var keys []mpKey
	sums := map[mpKey]uint16{}
	for i, n := 0, 1+c.Intn(6); i < n; i++ {
		k := mpKey{iccs[c.Intn(len(iccs))], msgs[c.Intn(len(msgs))], tags[c.Intn(len(tags))]}
		if i > 0 && c.flip(2) { // differs from an earlier one in a single part
			k = keys[c.Intn(len(keys))]
			switch c.Intn(3) {
			case 0:
				k.icc = iccs[c.Intn(len(iccs))]
			case 1:
				k.msg = msgs[c.Intn(len(msgs))]
			default:
				k.tag = tags[c.Intn(len(tags))]
			}
		}
		if sums[k] == 0 {
			keys = append(keys, k)
			sums[k] = uint16(1 + c.Intn(14))
			model[k] = map[uint16][]byte{}
		}
	}
	var trace []string
	log := func(f string, a ...interface{}) { trace = append(trace, fmt.Sprintf(f, a...)); c.desc = trace }
	mf := func(k mpKey) go808.MultipartFile {
		return go808.MultipartFile{IccID: k.icc, MsgID: k.msg, Tag: k.tag, Sum: sums[k]}
	}
	full := func(k mpKey) bool {
		for i := 1; i <= int(sums[k]); i++ {
			if _, ok := model[k][uint16(i)]; !ok {
				return false
			}
		}
		return true
	}
	merges := 0
	// merged files that are read later, after other uploads were merged
	type later struct {
		r    io.ReadCloser
		want []byte
	}
	open := map[mpKey]later{}
	drain := func(k mpKey) bool {
		l, ok := open[k]
		if !ok {
			return true
		}
		delete(open, k)
		got, err := io.ReadAll(l.r)
		l.r.Close()
		if err != nil || !bytes.Equal(got, l.want) {
			log("read what was merged of %v", k)
			c.failf("Merge of %+v yields %d bytes %x, want %d bytes %x (error %v)", k, len(got), got, len(l.want), l.want, err)
			return false
		}
		return true
	}
	defer func() {
		for _, l := range open {
			l.r.Close()
		}
	}()
	check := func() bool {
		for _, k := range keys {
			if dead[k] {
				continue
			}
			if got, want := mf(k).IsFull(), full(k); got != want {
				log("parts of %v: %d of %d", k, len(model[k]), sums[k])
				c.failf("IsFull of %+v is %v, want %v", mf(k), got, want)
				return false
			}
		}
		return true
	}
	ops := 20 + c.Intn(80)
	for o := 0; o < ops; o++ {
		k := keys[c.Intn(len(keys))]
		if dead[k] {
			continue
		}
		if full(k) && c.flip(2) {
			var want []byte
			extra := false
			for i := 1; i <= int(sums[k]); i++ {
				want = append(want, model[k][uint16(i)]...)
			}
			for s := range model[k] {
				if s < 1 || s > sums[k] {
					extra = true
				}
			}
			log("merge %v of %d parts", k, sums[k])
			if !drain(k) {
				return
			}
			r, err := mf(k).Merge()
			if err != nil {
				c.failf("Merge of %+v fails: %v", mf(k), err)
				return
			}
			open[k] = later{r, want}
			if c.flip(2) && !drain(k) {
				return
			}
			merges++
			if extra { // what becomes of parts beyond the count is not specified
				dead[k] = true
				continue
			}
			model[k] = map[uint16][]byte{}
			if c.flip(2) {
				sums[k] = uint16(1 + c.Intn(14))
			}
			if !check() {
				return
			}
			continue
		}
		n := c.Intn(40)
		if c.flip(6) {
			n = 0
		}
		if c.flip(12) {
			n = 1000 + c.Intn(70000)
		}
		data := c.bytes(n)
		seq := uint16(1 + c.Intn(int(sums[k])))
		if c.flip(4) { // the lowest one missing
			for i := 1; i <= int(sums[k]); i++ {
				if _, ok := model[k][uint16(i)]; !ok {
					seq = uint16(i)
					break
				}
			}
		}
		if c.flip(25) {
			seq = []uint16{0, sums[k] + 1, 0xffff, sums[k] + 256}[c.Intn(4)]
		}
		log("write %v part %d: %d bytes", k, seq, n)
		if err := mf(k).Write(seq, data); err != nil {
			c.failf("Write of part %d of %+v fails: %v", seq, mf(k), err)
			return
		}
		for i := range data { // the data were the caller's
			data[i] ^= 0x55
		}
		keep := append([]byte{}, data...)
		for i := range keep {
			keep[i] ^= 0x55
		}
		model[k][seq] = keep
		if c.flip(3) && !check() {
			return
		}
	}
	for _, k := range keys {
		if !drain(k) {
			return
		}
	}
	if !check() {
		return
	}
	c.key = fmt.Sprint(trace)
	if merges == 0 {
		c.trivial()
	}
}

// drvBigMultipart: many parts, numbers of several digits and more than 255.
func drvBigMultipart(c *vc) {
	n := 130 + c.Intn(250)
	k := go808.MultipartFile{IccID: atomic.AddUint64(&mpIcc, 1), MsgID: 0x0801, Tag: uint32(c.uint(32)), Sum: uint16(n)}
	perm := c.Perm(n)
	part := func(i, gen int) []byte { return []byte(fmt.Sprintf("<%d/%d>", i, gen)) }
	for round := 0; round < 2; round++ {
		var want []byte
		miss := c.Intn(n)
		for _, i := range perm {
			if i == miss {
				continue
			}
			if err := k.Write(uint16(i+1), part(i+1, round)); err != nil {
				c.failf("Write of part %d fails: %v", i+1, err)
				return
			}
		}
		for i := 1; i <= n; i++ {
			want = append(want, part(i, round)...)
		}
		c.note("%d parts, part %d last", n, miss+1)
		if k.IsFull() {
			c.failf("complete although part %d of %d is missing", miss+1, n)
			return
		}
		k.Write(uint16(miss+1), part(miss+1, round))
		if !k.IsFull() {
			c.failf("not complete with all %d parts", n)
			return
		}
		r, err := k.Merge()
		if err != nil {
			c.failf("Merge of %d parts fails: %v", n, err)
			return
		}
		got, _ := io.ReadAll(r)
		r.Close()
		if !bytes.Equal(got, want) {
			c.failf("Merge of %d parts yields %q, want %q", n, vcut(string(got), 600), vcut(string(want), 600))
			return
		}
	}
	c.key = fmt.Sprint(n, perm)
}

// mpFind: the file below the temporary directory that holds these bytes.
func mpFind(data []byte) (found string) {
	filepath.Walk(os.TempDir(), func(path string, info os.FileInfo, err error) error {
		if err == nil && info.Mode().IsRegular() && info.Size() == int64(len(data)) {
			if b, err := os.ReadFile(path); err == nil && bytes.Equal(b, data) {
				found = path
			}
		}
		return nil
	})
	return
}

// drvMultipartFail: parts that cannot be stored or read.
func drvMultipartFail(c *vc) {
	k := go808.MultipartFile{IccID: atomic.AddUint64(&mpIcc, 1), MsgID: 0x0801, Tag: uint32(c.uint(32)), Sum: 3}
	part := func(i int) []byte { return []byte(fmt.Sprintf("part %d of %d, tag %d", i, k.IccID, k.Tag)) }
	for i := 1; i <= 3; i++ {
		if err := k.Write(uint16(i), part(i)); err != nil {
			c.failf("Write of part %d of %+v fails: %v", i, k, err)
			return
		}
	}
	file := mpFind(part(2))
	if file == "" {
		c.failf("part 2 of %+v is not stored", k)
		return
	}
	for d := filepath.Dir(file); len(d) > len(os.TempDir()); d = filepath.Dir(d) {
		if st, err := os.Stat(d); err != nil || st.Mode().Perm()&0700 != 0700 {
			c.failf("the directory that parts of %+v are stored in has mode %v: its owner cannot use it", k, st.Mode())
			return
		}
	}
	// a directory where the file should be
	os.Remove(file)
	if err := os.Mkdir(file, 0755); err != nil {
		c.trivial()
		return
	}
	c.note("a directory where part 2 is stored")
	if err := k.Write(2, part(2)); err == nil {
		c.failf("Write of part 2 of %+v succeeds, although the part cannot be stored", k)
		return
	}
	// a part that can be opened but not read
	os.Remove(file)
	if err := os.Symlink(filepath.Dir(file), file); err != nil {
		c.trivial()
		return
	}
	c.note("part 2 cannot be read")
	r, err := k.Merge()
	if err == nil {
		got, rerr := io.ReadAll(r)
		r.Close()
		c.failf("Merge of %+v yields %q (error %v), although part 2 cannot be read", k, got, rerr)
		return
	}
	os.Remove(file)
	c.key = fmt.Sprint(k)
}

// drvHugeMultipart: the largest count there is.
func drvHugeMultipart(c *vc) {
	k := go808.MultipartFile{IccID: atomic.AddUint64(&mpIcc, 1), MsgID: 0x0801, Tag: 7, Sum: 0xffff}
	k.Write(1, []byte("first"))
	k.Write(0xffff, []byte("last"))
	c.note("parts 1 and 65535 of 65535")
	res := make(chan bool, 1)
	go func() { res <- k.IsFull() }()
	select {
	case full := <-res:
		if full {
			c.failf("IsFull of %+v is true with two parts stored", k)
		}
	case <-time.After(20 * time.Second):
		c.failf("IsFull of %+v does not return", k)
	}
	c.key = "huge"
}
