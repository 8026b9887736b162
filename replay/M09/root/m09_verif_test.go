package speed_test

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/performancecopilot/speed/v4"
)

type vop struct {
	name string
	f    func()
}

func vwithin(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan interface{}, 1)
	go func() { done <- vcatch(f) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		vfail(t, "%s never returns (lock still held)", what)
	}
}

// vhammer runs every pair of operations concurrently (under the race detector)
func vhammer(t *testing.T, kind string, ops []vop) {
	for i := range ops {
		for j := i; j < len(ops); j++ {
			a, b := ops[i], ops[j]
			vwithin(t, fmt.Sprintf("%s: %s concurrent with %s", kind, a.name, b.name), func() {
				var wg sync.WaitGroup
				for _, o := range []vop{a, b} {
					wg.Add(1)
					go func(o vop) {
						defer wg.Done()
						for k := 0; k < 20; k++ {
							vcatch(o.f)
						}
					}(o)
				}
				wg.Wait()
			})
		}
	}
}

// vsum: n concurrent increments of one add up
func vsum(t *testing.T, kind string, inc func(), get func() float64) {
	before := get()
	var wg sync.WaitGroup
	const g, n = 8, 400
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < n; k++ {
				vcatch(inc)
			}
		}()
	}
	vwithin(t, kind, wg.Wait)
	if d := get() - before; d != g*n {
		vfail(t, "%s: %d concurrent increments of one by %d goroutines changed the value by %v", kind, g*n, g, d)
	}
}

func TestReplayLocks(t *testing.T) {
	s, _ := speed.NewPCPSingletonMetric(int64(0), "s", speed.Int64Type, speed.InstantSemantics, speed.OneUnit)
	n := int64(0)
	var nm sync.Mutex
	next := func() int64 { nm.Lock(); defer nm.Unlock(); n++; return n }
	vhammer(t, "PCPSingletonMetric", []vop{
		{"Set", func() { _ = s.Set(next()) }}, {"Set of a bad value", func() { _ = s.Set("x") }}, {"MustSet of a bad value", func() { s.MustSet(1.5) }},
		{"MustSet", func() { s.MustSet(next()) }}, {"Val", func() { _ = s.Val() }}, {"String", func() { _ = s.String() }},
	})
	c, _ := speed.NewPCPCounter(0, "c")
	vhammer(t, "PCPCounter", []vop{
		{"Set", func() { _ = c.Set(c.Val() + 1) }}, {"Set backwards", func() { _ = c.Set(-1) }}, {"Inc", func() { _ = c.Inc(1) }}, {"Inc(0)", func() { _ = c.Inc(0) }}, {"Inc(-1)", func() { _ = c.Inc(-1) }},
		{"MustInc(-1)", func() { c.MustInc(-1) }}, {"MustInc", func() { c.MustInc(1) }}, {"Up", c.Up}, {"Val", func() { _ = c.Val() }}, {"Inc past the end", func() { _ = c.Inc(1<<63 - 1) }},
	})
	vsum(t, "PCPCounter.Inc", func() { _ = c.Inc(1) }, func() float64 { return float64(c.Val()) })
	vsum(t, "PCPCounter.Up", c.Up, func() float64 { return float64(c.Val()) })
	g, _ := speed.NewPCPGauge(0, "g")
	vhammer(t, "PCPGauge", []vop{
		{"Set", func() { _ = g.Set(float64(next())) }}, {"MustSet", func() { g.MustSet(float64(next())) }}, {"Inc", func() { _ = g.Inc(1) }}, {"Inc(0)", func() { _ = g.Inc(0) }},
		{"Dec", func() { _ = g.Dec(1) }}, {"MustInc", func() { g.MustInc(1) }}, {"MustDec", func() { g.MustDec(1) }}, {"Val", func() { _ = g.Val() }},
	})
	vsum(t, "PCPGauge.Inc", func() { _ = g.Inc(1) }, g.Val)
	vsum(t, "PCPGauge.Dec", func() { _ = g.Dec(-1) }, g.Val)
	tm, _ := speed.NewPCPTimer("t", speed.SecondUnit)
	vhammer(t, "PCPTimer", []vop{
		{"Start", func() { _ = tm.Start() }}, {"Stop", func() { _, _ = tm.Stop() }}, {"Reset", func() { _ = tm.Reset() }},
	})
	for it := 0; it < 50; it++ {
		// of many concurrent starts exactly one succeeds
		_, _ = tm.Stop()
		won := 0
		var wg sync.WaitGroup
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if tm.Start() == nil {
					nm.Lock()
					won++
					nm.Unlock()
				}
			}()
		}
		vwithin(t, "PCPTimer.Start", wg.Wait)
		if won != 1 {
			vfail(t, "of 8 concurrent PCPTimer.Start calls %d succeeded", won)
		}
	}
	ind, _ := speed.NewPCPInstanceDomain("d", []string{"a", "b"})
	im, _ := speed.NewPCPInstanceMetric(speed.Instances{"a": int64(0), "b": int64(0)}, "i", ind, speed.Int64Type, speed.InstantSemantics, speed.OneUnit)
	vhammer(t, "PCPInstanceMetric", []vop{
		{"SetInstance", func() { _ = im.SetInstance(next(), "a") }}, {"MustSetInstance", func() { im.MustSetInstance(next(), "a") }}, {"ValInstance", func() { _, _ = im.ValInstance("a") }},
		{"SetInstance of an unknown instance", func() { _ = im.SetInstance(int64(1), "z") }}, {"SetInstance of a bad value", func() { _ = im.SetInstance("x", "a") }}, {"MustSetInstance of a bad value", func() { im.MustSetInstance("x", "a") }},
		{"ValInstance of an unknown instance", func() { _, _ = im.ValInstance("z") }}, {"Instances", func() { _ = im.Instances() }},
	})
	cv, _ := speed.NewPCPCounterVector(map[string]int64{"a": 0, "b": 0}, "cv")
	cval := func() int64 { v, _ := cv.Val("a"); return v }
	vhammer(t, "PCPCounterVector", []vop{
		{"Set", func() { _ = cv.Set(cval()+1, "a") }}, {"Set unknown", func() { _ = cv.Set(1, "z") }}, {"Set backwards", func() { _ = cv.Set(-1, "a") }}, {"MustSet", func() { cv.MustSet(cval()+1, "a") }}, {"SetAll", func() { cv.SetAll(next() * 1000000) }},
		{"Inc", func() { _ = cv.Inc(1, "a") }}, {"Inc(0)", func() { _ = cv.Inc(0, "a") }}, {"Inc(-1)", func() { _ = cv.Inc(-1, "a") }}, {"Inc unknown", func() { _ = cv.Inc(1, "z") }}, {"MustInc", func() { cv.MustInc(1, "a") }}, {"IncAll", func() { cv.IncAll(1) }},
		{"Up", func() { cv.Up("a") }}, {"UpAll", cv.UpAll}, {"Val", func() { _, _ = cv.Val("a") }}, {"Val unknown", func() { _, _ = cv.Val("z") }},
	})
	vsum(t, "PCPCounterVector.Inc", func() { _ = cv.Inc(1, "a") }, func() float64 { return float64(cval()) })
	vsum(t, "PCPCounterVector.IncAll", func() { cv.IncAll(1) }, func() float64 { return float64(cval()) })
	vsum(t, "PCPCounterVector.UpAll", cv.UpAll, func() float64 { return float64(cval()) })
	gv, _ := speed.NewPCPGaugeVector(map[string]float64{"a": 0, "b": 0}, "gv")
	gval := func() float64 { v, _ := gv.Val("a"); return v }
	vhammer(t, "PCPGaugeVector", []vop{
		{"Set", func() { _ = gv.Set(float64(next()), "a") }}, {"Set unknown", func() { _ = gv.Set(1, "z") }}, {"MustSet", func() { gv.MustSet(float64(next()), "a") }}, {"SetAll", func() { gv.SetAll(float64(next())) }},
		{"Inc", func() { _ = gv.Inc(1, "a") }}, {"Inc unknown", func() { _ = gv.Inc(1, "z") }}, {"MustInc", func() { gv.MustInc(1, "a") }}, {"IncAll", func() { gv.IncAll(1) }},
		{"Dec", func() { _ = gv.Dec(1, "a") }}, {"MustDec", func() { gv.MustDec(1, "a") }}, {"DecAll", func() { gv.DecAll(1) }}, {"Val", func() { _, _ = gv.Val("a") }},
	})
	gv.SetAll(0)
	vsum(t, "PCPGaugeVector.Inc", func() { _ = gv.Inc(1, "a") }, gval)
	vsum(t, "PCPGaugeVector.IncAll", func() { gv.IncAll(1) }, gval)
	vsum(t, "PCPGaugeVector.DecAll", func() { gv.DecAll(-1) }, gval)
	h, _ := speed.NewPCPHistogram("h", 0, 100000, 3, speed.OneUnit)
	vhammer(t, "PCPHistogram", []vop{
		{"Record", func() { _ = h.Record(next() % 1000) }}, {"RecordN", func() { _ = h.RecordN(next()%1000, 3) }}, {"Record out of range", func() { _ = h.Record(1 << 40) }}, {"MustRecord out of range", func() { h.MustRecord(1 << 40) }}, {"MustRecordN", func() { h.MustRecordN(next()%1000, 2) }},
		{"Min", func() { _ = h.Min() }}, {"Max", func() { _ = h.Max() }}, {"Mean", func() { _ = h.Mean() }}, {"StandardDeviation", func() { _ = h.StandardDeviation() }}, {"Variance", func() { _ = h.Variance() }},
		{"Percentile", func() { _ = h.Percentile(50) }}, {"Buckets", func() { _ = h.Buckets() }}, {"Low", func() { _ = h.Low() }}, {"High", func() { _ = h.High() }},
	})
}
