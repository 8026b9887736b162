package speed_test

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/performancecopilot/speed/v4"
)

func vwithin(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan interface{}, 1)
	go func() { done <- vcatch(f) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		vfail(t, "%s never returns (lock still held)", what)
	}
}

type vop struct {
	name string
	f    func(r *speed.PCPRegistry, n int) error
}

var vops = []vop{
	{"MetricCount", func(r *speed.PCPRegistry, n int) error { r.MetricCount(); return nil }},
	{"ValuesCount", func(r *speed.PCPRegistry, n int) error { r.ValuesCount(); return nil }},
	{"StringCount", func(r *speed.PCPRegistry, n int) error { r.StringCount(); return nil }},
	{"InstanceCount", func(r *speed.PCPRegistry, n int) error { r.InstanceCount(); return nil }},
	{"InstanceDomainCount", func(r *speed.PCPRegistry, n int) error { r.InstanceDomainCount(); return nil }},
	{"HasMetric", func(r *speed.PCPRegistry, n int) error { r.HasMetric("m1"); return nil }},
	{"HasInstanceDomain", func(r *speed.PCPRegistry, n int) error { r.HasInstanceDomain("d1"); return nil }},
	{"AddMetric", func(r *speed.PCPRegistry, n int) error {
		m, _ := speed.NewPCPCounter(0, fmt.Sprintf("m%d", n))
		return r.AddMetric(m)
	}},
	{"AddMetric over a domain", func(r *speed.PCPRegistry, n int) error {
		m, _ := speed.NewPCPCounterVector(map[string]int64{"a": 1}, fmt.Sprintf("v%d", n), "x")
		return r.AddMetric(m)
	}},
	{"AddMetric of text", func(r *speed.PCPRegistry, n int) error {
		m, _ := speed.NewPCPSingletonMetric("x", fmt.Sprintf("s%d", n), speed.StringType, speed.InstantSemantics, speed.OneUnit)
		return r.AddMetric(m)
	}},
	{"AddMetric of a long name", func(r *speed.PCPRegistry, n int) error {
		m, _ := speed.NewPCPGauge(0, fmt.Sprintf("long name %0100d", n))
		return r.AddMetric(m)
	}},
	{"AddInstanceDomain", func(r *speed.PCPRegistry, n int) error {
		d, _ := speed.NewPCPInstanceDomain(fmt.Sprintf("d%d", n), []string{"a", "b"}, "x", "y")
		return r.AddInstanceDomain(d)
	}},
	{"AddInstanceDomainByName", func(r *speed.PCPRegistry, n int) error {
		_, err := r.AddInstanceDomainByName(fmt.Sprintf("d%d", n), []string{"a"})
		return err
	}},
	{"AddMetricByString", func(r *speed.PCPRegistry, n int) error {
		_, err := r.AddMetricByString(fmt.Sprintf("m%d", n), 1, speed.Int32Type, speed.InstantSemantics, speed.OneUnit)
		return err
	}},
	{"AddMetricByString over a domain", func(r *speed.PCPRegistry, n int) error {
		_, err := r.AddMetricByString(fmt.Sprintf("d%d[a].m%d", n%3, n), speed.Instances{"a": 1}, speed.Int32Type, speed.InstantSemantics, speed.OneUnit)
		return err
	}},
	{"AddMetricByString of a bad value", func(r *speed.PCPRegistry, n int) error {
		_, _ = r.AddMetricByString(fmt.Sprintf("d%d[a].m%d", n%3, n), speed.Instances{"a": "x"}, speed.Int32Type, speed.InstantSemantics, speed.OneUnit)
		return nil
	}},
}

func TestReplayRegistryLocks(t *testing.T) {
	r := speed.NewPCPRegistry()
	for _, a := range vops {
		a := a
		vwithin(t, a.name+" twice", func() { _ = a.f(r, 1); _ = a.f(r, 1) })
	}
	for i := range vops {
		for j := i; j < len(vops); j++ {
			a, b := vops[i], vops[j]
			r := speed.NewPCPRegistry()
			vwithin(t, fmt.Sprintf("%s concurrent with %s", a.name, b.name), func() {
				var wg sync.WaitGroup
				for k, o := range []vop{a, b} {
					wg.Add(1)
					go func(k int, o vop) {
						defer wg.Done()
						for n := 0; n < 6; n++ {
							vcatch(func() { _ = o.f(r, n) })
						}
					}(k, o)
				}
				wg.Wait()
			})
		}
	}
}

// the same name added concurrently is admitted exactly once
func TestReplayRegistryOnce(t *testing.T) {
	for _, o := range vops[7:15] {
		for it := 0; it < 60; it++ {
			r := speed.NewPCPRegistry()
			var ok int32
			var wg sync.WaitGroup
			start := make(chan bool)
			for g := 0; g < 6; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					vcatch(func() {
						if o.f(r, 7) == nil {
							atomic.AddInt32(&ok, 1)
						}
					})
				}()
			}
			close(start)
			vwithin(t, o.name, wg.Wait)
			if ok != 1 {
				vfail(t, "%s of one name by six goroutines succeeded %d times", o.name, ok)
			}
		}
	}
}
