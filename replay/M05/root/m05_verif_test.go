package speed_test

import (
	"fmt"
	"testing"
	"time"

	"github.com/performancecopilot/speed/v4"
)

func TestReplayTimer(t *testing.T) {
	units := []speed.TimeUnit{speed.NanosecondUnit, speed.MicrosecondUnit, speed.MillisecondUnit, speed.SecondUnit, speed.MinuteUnit, speed.HourUnit}
	ns := []float64{1, 1e3, 1e6, 1e9, 60e9, 3600e9}
	for it := 0; it < 300; it++ {
		u := it % len(units)
		tm, err := speed.NewPCPTimer("t", units[u])
		if err != nil {
			vfail(t, "NewPCPTimer: %v", err)
		}
		running := false
		var lo, hi float64 // bounds of the total, in nanoseconds
		var before, after time.Time
		hist := fmt.Sprintf("timer in unit %#x", uint32(units[u]))
		last := 0.0
		for k := 0; k < 10; k++ {
			switch vrng.Intn(4) {
			case 0, 1:
				if running {
					if vrng.Intn(2) == 0 {
						continue
					}
				}
				hist += "; Start()"
				b := time.Now()
				err := tm.Start()
				if (err == nil) == running {
					vfail(t, "%s: error %v", hist, err)
				}
				if err == nil {
					before, after = b, time.Now()
				}
				running = true
			case 2:
				if vrng.Intn(2) == 0 {
					time.Sleep(time.Duration(vrng.Intn(200)) * time.Microsecond)
				}
				if running && it%10 == 0 && k < 4 {
					time.Sleep(1100 * time.Microsecond)
				}
				hist += "; Stop()"
				b := time.Now()
				v, err := tm.Stop()
				if (err == nil) != running {
					vfail(t, "%s: error %v", hist, err)
				}
				if err != nil {
					continue
				}
				running = false
				lo += float64(b.Sub(after))
				hi += float64(time.Since(before))
				if v*ns[u] < lo*(1-1e-9)-1 || v*ns[u] > hi*(1+1e-9)+1 {
					vfail(t, "%s: total %v, expected between %v and %v ns", hist, v, lo, hi)
				}
				last = v
			case 3:
				hist += "; Reset()"
				err := tm.Reset()
				if (err == nil) == running {
					vfail(t, "%s: error %v", hist, err)
				}
				if err == nil {
					lo, hi, last = 0, 0, 0
				}
			}
		}
		if running {
			_, _ = tm.Stop()
			continue
		}
		// the total survives refused operations: one more empty lap adds almost nothing
		_, err = tm.Stop()
		if err == nil {
			vfail(t, "%s; Stop() of a stopped timer succeeds", hist)
		}
		b := time.Now()
		if err := tm.Start(); err != nil {
			vfail(t, "%s: Start: %v", hist, err)
		}
		v, err := tm.Stop()
		d := float64(time.Since(b))
		if err != nil || v < last || (v-last)*ns[u] > d*(1+1e-9)+lo*1e-9+1 {
			vfail(t, "%s; Start(); Stop() = %v, %v after a total of %v (%v ns)", hist, v, err, last, d)
		}
	}
}
