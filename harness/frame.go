// Runner of the concrete checks. The package clause is rewritten by govc.
package HARNESS

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// vc is one concrete case.
type vc struct {
	*rand.Rand
	h      *vharness
	driver string
	idx    int
	desc   []string
	key    string
	fails  []string
	triv   bool
	inc    string
	only   []*Layout
}

func (c *vc) failf(f string, a ...interface{}) { c.fails = append(c.fails, fmt.Sprintf(f, a...)) }
func (c *vc) note(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	c.desc = append(c.desc, s)
}
func (c *vc) trivial() { c.triv = true }

// inconclusive: the environment kept the case from being judged.
func (c *vc) inconclusive(f string, a ...interface{}) { c.inc = fmt.Sprintf(f, a...) }

type vdriver struct {
	name  string
	props string // space separated
	n     int    // cases per run at scale 1
	slow  bool   // a case may take seconds
	par   bool   // cases may run concurrently with other cases of the driver
	wide  int    // number of concurrent cases when par (default 8)
	run   func(c *vc)
}

var vdrivers []vdriver

func init() {
	// the protocol's times are local times; a zone that is not UTC shows confusions
	time.Local = time.FixedZone("VERIF", 8*3600)
}

type vhints struct {
	Ints   []uint64                       `json:"ints"`
	Strs   []string                       `json:"strs"`
	Bodies map[string][]string            `json:"bodies"` // type -> hex bodies from refuted obligations
	Fields map[string][]map[string]string `json:"fields"` // type -> leaf values from refuted obligations
}
type vharness struct {
	seed  int64
	hints vhints
}
type vfail struct {
	Driver string   `json:"driver"`
	Case   int      `json:"case"`
	Seed   int64    `json:"seed"`
	What   []string `json:"what"`
	Input  []string `json:"input"`
}
type vreport struct {
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct"`
	ByDriver    map[string]int `json:"by_driver"`
	Incon       []string       `json:"inconclusive"`
	Samples     []string       `json:"samples"`
	Fails       []vfail        `json:"fails"`
	Wall        float64        `json:"wall_s"`
}

func vcaseSeed(seed int64, driver string, i int) int64 {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d/%s/%d", seed, driver, i)
	return int64(f.Sum64() >> 1)
}

func (h *vharness) runCase(d *vdriver, i int) *vc {
	c := &vc{Rand: rand.New(rand.NewSource(vcaseSeed(h.seed, d.name, i))), h: h, driver: d.name, idx: i}
	done := make(chan bool)
	if d.slow {
		vlagOnce.Do(vlagWatch)
	}
	begin := time.Now()
	go func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if len(st) > 3000 {
					st = st[:3000]
				}
				c.failf("panic: %v\n%s", r, st)
			}
			close(done)
		}()
		d.run(c)
	}()
	limit := 20 * time.Second
	if d.slow {
		limit = 90 * time.Second
	}
	select {
	case <-done:
		if d.slow && len(c.fails) > 0 {
			if l := vlagSince(begin); l > 250*time.Millisecond {
				c.inconclusive("the machine is too busy (%v late): %s", l, c.fails[0])
				c.fails = nil
			}
		}
		return c
	case <-time.After(limit):
	}
	// the case may still be writing to c
	return &vc{h: h, driver: d.name, idx: i, fails: []string{fmt.Sprintf("does not terminate within %v", limit)}, desc: []string{"(input not available: the case is still running)"}}
}

// vlag: when and how late this process was scheduled.
var (
	vlagOnce sync.Once
	vlagMu   sync.Mutex
	vlagAt   []time.Time
	vlagBy   []time.Duration
)

func vlagWatch() {
	go func() {
		for {
			t := time.Now()
			time.Sleep(10 * time.Millisecond)
			if d := time.Since(t) - 10*time.Millisecond; d > 50*time.Millisecond {
				vlagMu.Lock()
				vlagAt, vlagBy = append(vlagAt, time.Now()), append(vlagBy, d)
				vlagMu.Unlock()
			}
		}
	}()
}
func vlagSince(t time.Time) (max time.Duration) {
	vlagMu.Lock()
	defer vlagMu.Unlock()
	for i := range vlagAt {
		if vlagAt[i].After(t) && vlagBy[i] > max {
			max = vlagBy[i]
		}
	}
	return
}

func TestVerifHarness(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("VERIF_PROP not set")
	}
	h := &vharness{seed: 1}
	fmt.Sscan(os.Getenv("VERIF_HSEED"), &h.seed)
	if f := os.Getenv("VERIF_HINTS"); f != "" {
		if data, err := os.ReadFile(f); err == nil {
			json.Unmarshal(data, &h.hints)
		}
	}
	scale := 1.0
	fmt.Sscan(os.Getenv("VERIF_SCALE"), &scale)
	budget := 60.0
	fmt.Sscan(os.Getenv("VERIF_BUDGET"), &budget)
	t0 := time.Now()
	stop := t0.Add(time.Duration(budget * float64(time.Second)))
	rep := vreport{ByDriver: map[string]int{}}
	var mu sync.Mutex
	seen := map[string]bool{}
	add := func(d *vdriver, c *vc) {
		mu.Lock()
		defer mu.Unlock()
		rep.Evaluations++
		rep.ByDriver[d.name]++
		if c.inc != "" {
			if len(rep.Incon) < 5 {
				rep.Incon = append(rep.Incon, d.name+": "+c.inc)
			}
			return
		}
		k := d.name + "|" + c.key
		if !c.triv && !seen[k] {
			seen[k] = true
			rep.Distinct++
			if rep.ByDriver[d.name] <= 2 && len(rep.Samples) < 12 {
				rep.Samples = append(rep.Samples, d.name+": "+vcut(strings.Join(c.desc, "; "), 300))
			}
		}
		if len(c.fails) > 0 {
			rep.Fails = append(rep.Fails, vfail{d.name, c.idx, h.seed, c.fails, c.desc})
		}
	}
	only, onlyCase := "", -1
	if r := os.Getenv("VERIF_REPLAY"); r != "" { // driver:case
		if i := strings.LastIndex(r, ":"); i > 0 {
			only = r[:i]
			fmt.Sscan(r[i+1:], &onlyCase)
		}
	}
	var ds []*vdriver
	for i := range vdrivers {
		d := &vdrivers[i]
		for _, p := range strings.Fields(d.props) {
			if p == prop && (only == "" || only == d.name) {
				ds = append(ds, d)
				break
			}
		}
	}
	sort.SliceStable(ds, func(i, j int) bool { return ds[i].n > ds[j].n })
	for di, d := range ds {
		if onlyCase >= 0 {
			add(d, h.runCase(d, onlyCase))
			continue
		}
		n := int(float64(d.n) * scale)
		if n < 1 {
			n = 1
		}
		// every driver gets its share of what is left of the time
		dstop := time.Now().Add(time.Until(stop) / time.Duration(len(ds)-di))
		failed := int32(0)
		workers := 1
		if d.par {
			workers = 8
			if d.wide > 0 {
				workers = d.wide
			}
		}
		var next int32 = -1
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(atomic.AddInt32(&next, 1))
					if i >= n || time.Now().After(dstop) || atomic.LoadInt32(&failed) >= 3 {
						return
					}
					c := h.runCase(d, i)
					if len(c.fails) > 0 {
						atomic.AddInt32(&failed, 1)
					}
					add(d, c)
				}
			}()
		}
		wg.Wait()
	}
	rep.Wall = time.Since(t0).Seconds()
	data, _ := json.MarshalIndent(rep, "", " ")
	if out := os.Getenv("VERIF_OUT"); out != "" {
		if err := os.WriteFile(out, data, 0644); err != nil {
			t.Fatal(err)
		}
	} else {
		fmt.Println(string(data))
	}
}

func vcut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- value sources -----------------------------------------------------------

// uint returns an interesting value of w bits.
func (c *vc) uint(w int) uint64 {
	mask := uint64(1)<<uint(w) - 1
	if w == 64 {
		mask = ^uint64(0)
	}
	var v uint64
	switch c.Intn(8) {
	case 0:
		v = 0
	case 1:
		v = mask
	case 2:
		v = uint64(c.Intn(20))
	case 3:
		v = 1 << uint(c.Intn(w))
	case 4:
		if n := len(c.h.hints.Ints); n > 0 {
			v = c.h.hints.Ints[c.Intn(n)] + uint64(c.Intn(3)) - 1
		}
	default:
		v = c.Uint64()
	}
	return v & mask
}
func (c *vc) flip(p int) bool { return c.Intn(p) == 0 }

// size returns an interesting length up to max.
func (c *vc) size(max int) int {
	if max <= 0 {
		return 0
	}
	switch c.Intn(8) {
	case 0:
		return 0
	case 1:
		return max
	case 2:
		if max > 1 {
			return max - 1
		}
		return max
	case 3:
		if n := len(c.h.hints.Ints); n > 0 {
			v := c.h.hints.Ints[c.Intn(n)] + uint64(c.Intn(3)) - 1
			if v <= uint64(max) {
				return int(v)
			}
		}
		return c.Intn(max + 1)
	case 4, 5:
		m := max
		if m > 6 {
			m = 6
		}
		return c.Intn(m + 1)
	}
	return c.Intn(max + 1)
}
func (c *vc) bytes(n int) []byte {
	b := make([]byte, n)
	switch c.Intn(5) {
	case 0:
		for i := range b {
			b[i] = []byte{0x7d, 0x7e, 0x01, 0x02, 0x00}[c.Intn(5)]
		}
	case 1:
		v := byte(c.uint(8))
		for i := range b {
			b[i] = v
		}
	default:
		c.Read(b)
	}
	return b
}
