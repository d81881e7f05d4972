package HARNESS

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"gitee.com/coco/go808"
)

func init() {
	vdrivers = append(vdrivers,
		vdriver{name: "timer", props: "C17", n: 96, slow: true, par: true, wide: 48, run: drvTimer},
		vdriver{name: "timerbeat", props: "C17", n: 24, slow: true, par: true, wide: 24, run: drvTimerBeat},
		vdriver{name: "timermany", props: "C17", n: 4, slow: true, par: true, wide: 4, run: drvTimerMany},
		vdriver{name: "timerstorm", props: "C17", n: 16, slow: true, par: true, wide: 8, run: drvTimerStorm},
	)
}

// lag watches how late this process is scheduled.
type lagWatch struct {
	max  int64
	stop chan struct{}
}

func watchLag() *lagWatch {
	w := &lagWatch{stop: make(chan struct{})}
	go func() {
		for {
			t := time.Now()
			select {
			case <-w.stop:
				return
			case <-time.After(20 * time.Millisecond):
			}
			if d := int64(time.Since(t)) - int64(20*time.Millisecond); d > atomic.LoadInt64(&w.max) {
				atomic.StoreInt64(&w.max, d)
			}
		}
	}()
	return w
}
func (w *lagWatch) lag() time.Duration { return time.Duration(atomic.LoadInt64(&w.max)) }

// tgen is the time a key is pending because of one update.
type tgen struct {
	start, upd time.Time // before and after the call
	secs       int64
	endLo      time.Time // before and after the call that ended it (zero: none)
	endHi      time.Time
}

func (g tgen) early() int64 { return g.start.Unix() + g.secs }
func (g tgen) late() int64  { return g.upd.Unix() + g.secs }

// mayFire: a check may have found it expired before it was ended.
func (g tgen) mayFire() bool { return g.endHi.IsZero() || g.early() <= g.endHi.Unix() }

// drvTimer: a random schedule of updates and removals of many keys, judged by
// when each key may and must fire.
func drvTimer(c *vc) {
	w := watchLag()
	defer close(w.stop)
	var mu sync.Mutex
	fires := map[string][]time.Time{}
	var timer *go808.CountdownTimer
	style := c.Intn(3)
	secs := int64(1 + c.Intn(3))
	ready := make(chan struct{})
	timer = go808.NewCountdownTimer(secs, func(k string) {
		mu.Lock()
		fires[k] = append(fires[k], time.Now())
		mu.Unlock()
		<-ready
		if style == 1 {
			timer.Remove(k) // as closing a session does
		}
	})
	close(ready)
	nkeys := 1 + c.Intn(24)
	if c.flip(3) {
		nkeys = 1 + c.Intn(4)
	}
	gens := map[string][]*tgen{}
	var trace []string
	t0 := time.Now()
	step := func(op, k string, f func()) (time.Time, time.Time) {
		a := time.Now()
		f()
		z := time.Now()
		trace = append(trace, fmt.Sprintf("%.2fs %s %s", a.Sub(t0).Seconds(), op, k))
		return a, z
	}
	end := func(k string, a, z time.Time) {
		if gs := gens[k]; len(gs) > 0 {
			if g := gs[len(gs)-1]; g.endHi.IsZero() {
				g.endLo, g.endHi = a, z
			}
		}
	}
	ops := 4 + c.Intn(50)
	span := time.Duration(500+c.Intn(3500)) * time.Millisecond
	for i := 0; i < ops; i++ {
		k := fmt.Sprintf("key%d", c.Intn(nkeys))
		switch x := c.Intn(12); {
		case x < 8:
			a, z := step("update", k, func() { timer.Update(k) })
			end(k, a, z)
			gens[k] = append(gens[k], &tgen{start: a, upd: z, secs: secs})
		case x < 10:
			a, z := step("remove", k, func() { timer.Remove(k) })
			end(k, a, z)
		case x < 11:
			n := []int64{0, -1, 1, 2, 3, 5}[c.Intn(6)]
			step("set expiration", fmt.Sprint(n), func() { timer.SetExpiration(n) })
			if n > 0 {
				secs = n
			}
		default:
			time.Sleep(time.Duration(c.Intn(int(span))) / 3)
		}
		if c.flip(3) {
			time.Sleep(time.Duration(c.Intn(int(2 * span / time.Duration(ops)))))
		}
	}
	// until every key has had its time, and a while longer for repeated firing
	last := time.Now()
	for _, gs := range gens {
		if g := gs[len(gs)-1]; g.endHi.IsZero() {
			if t := time.Unix(g.late(), 0).Add(2500 * time.Millisecond); t.After(last) {
				last = t
			}
		}
	}
	time.Sleep(time.Until(last.Add(1700 * time.Millisecond)))
	slack := 2500*time.Millisecond + 3*w.lag()
	time.Sleep(3 * w.lag())
	c.key = strings.Join(trace, ";")
	c.desc = append([]string{fmt.Sprintf("timer of %d s, deadlines as set", secs)}, trace...)
	mu.Lock()
	defer mu.Unlock()
	var ks []string
	for k := range fires {
		ks = append(ks, k)
	}
	for k := range gens {
		if fires[k] == nil {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	if w.lag() > 2*time.Second {
		c.inconclusive("the machine is too busy (%v late)", w.lag())
		return
	}
	for _, k := range ks {
		gs := gens[k]
		may, must := 0, 0
		for _, g := range gs {
			if g.mayFire() {
				may++
			}
			due := time.Unix(g.late(), 0).Add(slack)
			if g.endLo.IsZero() || due.Before(g.endLo) {
				must++
			}
		}
		rel := func(ts []time.Time) (r []string) {
			for _, t := range ts {
				r = append(r, fmt.Sprintf("%.2fs", t.Sub(t0).Seconds()))
			}
			return
		}
		fs := fires[k]
		if len(fs) > may || len(fs) < must {
			c.failf("%s fired %d times (at %v), must at least %d and may at most %d times", k, len(fs), rel(fs), must, may)
			return
		}
		for i, f := range fs {
			n := 0
			for _, g := range gs {
				if g.mayFire() && g.early() <= f.Unix() && !f.Before(g.start) {
					n++
				}
			}
			if n < i+1 {
				c.failf("%s fired at %.2fs, before its deadline", k, f.Sub(t0).Seconds())
				return
			}
		}
		if len(gs) > 0 {
			g := gs[len(gs)-1]
			if g.endHi.IsZero() && len(fs) > 0 {
				if f := fs[len(fs)-1]; f.After(time.Unix(g.late(), 0).Add(slack)) {
					c.failf("%s fired at %.2fs, %v after its deadline", k, f.Sub(t0).Seconds(), f.Sub(time.Unix(g.late(), 0)))
					return
				}
			}
		}
	}
}

// drvTimerStorm: many goroutines update and remove the same keys at once; each
// key left alone afterwards fires exactly once, each removed one never.
func drvTimerStorm(c *vc) {
	var mu sync.Mutex
	fires := map[string]int{}
	secs := int64(3)
	timer := go808.NewCountdownTimer(secs, func(k string) {
		mu.Lock()
		fires[k]++
		mu.Unlock()
	})
	nkeys := 1 + c.Intn(12)
	gor := 2 + c.Intn(7)
	rounds := 300 + c.Intn(1500)
	seeds := make([]int64, gor)
	for i := range seeds {
		seeds[i] = c.Int63()
	}
	var wg sync.WaitGroup
	begin := time.Now()
	for g := 0; g < gor; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			x := uint64(seeds[g])
			for i := 0; i < rounds && time.Since(begin) < time.Second; i++ {
				x = x*6364136223846793005 + 1442695040888963407
				k := fmt.Sprintf("k%d", int(x>>33)%nkeys)
				if (x>>50)%5 == 0 {
					timer.Remove(k)
				} else {
					timer.Update(k)
				}
			}
		}(g)
	}
	wg.Wait()
	keep := map[string]bool{}
	for i := 0; i < nkeys; i++ {
		k := fmt.Sprintf("k%d", i)
		if c.flip(3) {
			timer.Remove(k)
		} else {
			timer.Update(k)
			keep[k] = true
		}
	}
	done := time.Now()
	mu.Lock()
	n := len(fires)
	mu.Unlock()
	c.key = fmt.Sprint(nkeys, gor, rounds, keep)
	c.note("%d goroutines, %d keys, %d operations each, then %d keys updated and the others removed", gor, nkeys, rounds, len(keep))
	if done.Sub(begin) > 2*time.Second {
		c.inconclusive("too slow")
		return
	}
	if n > 0 {
		c.failf("%d keys fired within %v of their updates, deadline %d s", n, done.Sub(begin), secs)
		return
	}
	eventually(12*time.Second, func() bool {
		mu.Lock()
		defer mu.Unlock()
		return len(fires) >= len(keep)
	})
	time.Sleep(2200 * time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	for i := 0; i < nkeys; i++ {
		k := fmt.Sprintf("k%d", i)
		want := 0
		if keep[k] {
			want = 1
		}
		if fires[k] != want {
			c.failf("%s fired %d times, want %d", k, fires[k], want)
			return
		}
	}
}

// drvTimerBeat: some keys are updated regularly and never expire; the others,
// updated once, expire on time all the same.
func drvTimerBeat(c *vc) {
	w := watchLag()
	defer close(w.stop)
	var mu sync.Mutex
	fires := map[string][]time.Time{}
	secs := int64(3 + c.Intn(2))
	timer := go808.NewCountdownTimer(secs, func(k string) {
		mu.Lock()
		fires[k] = append(fires[k], time.Now())
		mu.Unlock()
	})
	nlive, nquiet := 1+c.Intn(6), 1+c.Intn(6)
	period := time.Second
	if c.flip(3) {
		period = time.Duration(300+c.Intn(1200)) * time.Millisecond
	}
	var live, quiet []string
	for i := 0; i < nlive; i++ {
		live = append(live, fmt.Sprintf("live%d", i))
	}
	for i := 0; i < nquiet; i++ {
		quiet = append(quiet, fmt.Sprintf("quiet%d", i))
	}
	order := append(append([]string{}, live...), quiet...)
	if c.flip(3) {
		c.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	upd := map[string]time.Time{}
	for _, k := range order {
		timer.Update(k)
		upd[k] = time.Now()
	}
	begin := time.Now()
	gap := false
	last := begin
	for time.Since(begin) < time.Duration(2*secs+6)*time.Second {
		time.Sleep(time.Until(last.Add(period)))
		now := time.Now()
		if now.Sub(last) > time.Duration(secs-1)*time.Second {
			gap = true
		}
		last = now
		for _, k := range live {
			timer.Update(k)
		}
	}
	c.key = fmt.Sprint(secs, order, period)
	c.note("timer of %d s: %v updated once, then %v every %v", secs, order, live, period)
	if gap || w.lag() > time.Second {
		c.inconclusive("the machine is too busy (%v late)", w.lag())
		return
	}
	mu.Lock()
	defer mu.Unlock()
	for _, k := range live {
		if len(fires[k]) > 0 {
			c.failf("%s fired %.2fs after the start, though updated every %v", k, fires[k][0].Sub(begin).Seconds(), period)
			return
		}
	}
	for _, k := range quiet {
		if len(fires[k]) != 1 {
			c.failf("%s fired %d times within %d s", k, len(fires[k]), 2*secs+6)
			return
		}
		due := time.Unix(upd[k].Unix()+secs, 0)
		if f := fires[k][0]; f.After(due.Add(2500*time.Millisecond + 3*w.lag())) {
			c.failf("%s fired %v after its deadline", k, f.Sub(due))
			return
		}
	}
}

// drvTimerMany: very many keys expire at the same time.
func drvTimerMany(c *vc) {
	w := watchLag()
	defer close(w.stop)
	var mu sync.Mutex
	fires := map[string]int{}
	secs := int64(1 + c.Intn(2))
	timer := go808.NewCountdownTimer(secs, func(k string) {
		mu.Lock()
		fires[k]++
		mu.Unlock()
	})
	n := 5000 + c.Intn(25000)
	for i := 0; i < n; i++ {
		timer.Update(fmt.Sprint(i))
	}
	end := time.Now()
	c.key = fmt.Sprint(n, secs)
	c.note("timer of %d s, %d keys updated at once", secs, n)
	time.Sleep(time.Until(time.Unix(end.Unix()+secs, 0).Add(2500 * time.Millisecond)))
	time.Sleep(3 * w.lag())
	if w.lag() > 500*time.Millisecond {
		c.inconclusive("the machine is too busy (%v late)", w.lag())
		return
	}
	mu.Lock()
	defer mu.Unlock()
	if len(fires) != n {
		c.failf("%d of %d keys fired within 2.5 s of the deadline", len(fires), n)
		return
	}
	for k, m := range fires {
		if m != 1 {
			c.failf("key %s fired %d times", k, m)
			return
		}
	}
}
