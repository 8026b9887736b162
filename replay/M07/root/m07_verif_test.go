package speed_test

import (
	"fmt"
	"math"
	"testing"

	histogram "github.com/HdrHistogram/hdrhistogram-go"
	"github.com/performancecopilot/speed/v4"
)

func vbound() int64 {
	edge := []int64{-1, 0, 1, 2, 10, 1000, 3600000000, 3600000001, 3599999999, math.MaxInt64, math.MinInt64}
	if vrng.Intn(2) == 0 {
		return edge[vrng.Intn(len(edge))]
	}
	return int64(vrng.Intn(200000) - 1000)
}

func vclamp(v int64) int64 {
	if v < 0 {
		return 0
	}
	if v > 3600000000 {
		return 3600000000
	}
	return v
}

func TestReplayHistogram(t *testing.T) {
	for it := 0; it < 500; it++ {
		low, high, sig := vbound(), vbound(), vrng.Intn(9)-2
		if it%4 != 0 {
			low, high = 0, int64(1000+vrng.Intn(100000))
		}
		if sig > 3 && it%10 != 0 {
			sig = 3
		}
		hist := fmt.Sprintf("NewPCPHistogram(low %d, high %d, sigfigures %d)", low, high, sig)
		var h *speed.PCPHistogram
		var err error
		if p := vcatch(func() { h, err = speed.NewPCPHistogram("h", low, high, sig, speed.OneUnit) }); p != nil {
			vfail(t, "%s panicked: %v", hist, p)
		}
		if (err == nil) != (low <= high) {
			vfail(t, "%s: error %v", hist, err)
		}
		if err != nil {
			continue
		}
		cl, ch, cs := vclamp(low), vclamp(high), sig
		if cs < 1 {
			cs = 1
		}
		if cs > 5 {
			cs = 5
		}
		ref := histogram.New(cl, ch, cs)
		wl := cl
		if wl < 1 {
			wl = 1
		}
		if h.Low() != wl || h.High() != ch {
			vfail(t, "%s: Low() = %d, High() = %d", hist, h.Low(), h.High())
		}
		var get func(string, string) interface{}
		var c *speed.PCPClient
		if it%5 == 0 {
			c, get = vexport(t, "m07", h)
		}
		recorded := false
		check := func() {
			if !recorded {
				if h.Max() != 0 || h.Min() != 0 || h.Mean() != 0 || h.StandardDeviation() != 0 || h.Variance() != 0 {
					vfail(t, "%s: min %d max %d mean %v stddev %v variance %v before the first record", hist, h.Min(), h.Max(), h.Mean(), h.StandardDeviation(), h.Variance())
				}
				return
			}
			sd := ref.StdDev()
			if h.Max() != ref.Max() || h.Min() != ref.Min() || !vsame(h.Mean(), ref.Mean()) || !vsame(h.StandardDeviation(), sd) || !vsame(h.Variance(), sd*sd) {
				vfail(t, "%s: min %d max %d mean %v stddev %v variance %v, expected %d %d %v %v %v", hist, h.Min(), h.Max(), h.Mean(), h.StandardDeviation(), h.Variance(), ref.Min(), ref.Max(), ref.Mean(), sd, sd*sd)
			}
			for _, q := range []float64{0, 1, 50, 90, 99.9, 100} {
				if h.Percentile(q) != ref.ValueAtQuantile(q) {
					vfail(t, "%s: Percentile(%v) = %d, expected %d", hist, q, h.Percentile(q), ref.ValueAtQuantile(q))
				}
			}
			if get != nil {
				for k, v := range map[string]float64{"min": float64(ref.Min()), "max": float64(ref.Max()), "mean": ref.Mean(), "standard_deviation": sd, "variance": sd * sd} {
					if x := get("h", k); !vsame(v, x) {
						vfail(t, "%s: exported %s = %v, expected %v", hist, k, x, v)
					}
				}
			}
		}
		check()
		for k := 0; k < 12; k++ {
			v := vbound()
			if vrng.Intn(4) != 0 {
				v = int64(vrng.Intn(int(ch%100000) + 1))
			}
			n := int64(1)
			var err error
			p := vcatch(func() {
				switch vrng.Intn(4) {
				case 0:
					hist += fmt.Sprintf("; Record(%d)", v)
					err = h.Record(v)
				case 1:
					hist += fmt.Sprintf("; MustRecord(%d)", v)
					if p := vcatch(func() { h.MustRecord(v) }); p != nil {
						err = fmt.Errorf("%v", p)
					}
				case 2:
					n = int64(vrng.Intn(20))
					hist += fmt.Sprintf("; RecordN(%d, %d)", v, n)
					err = h.RecordN(v, n)
				case 3:
					n = int64(vrng.Intn(20))
					hist += fmt.Sprintf("; MustRecordN(%d, %d)", v, n)
					if p := vcatch(func() { h.MustRecordN(v, n) }); p != nil {
						err = fmt.Errorf("%v", p)
					}
				}
			})
			if p != nil {
				vfail(t, "%s panicked: %v", hist, p)
			}
			want := ref.RecordValues(v, n)
			if (err == nil) != (want == nil) {
				vfail(t, "%s: error %v, expected %v", hist, err, want)
			}
			recorded = recorded || err == nil
			check()
		}
		bars := ref.Distribution()
		bs := h.Buckets()
		if len(bs) != len(bars) {
			vfail(t, "%s: %d buckets, expected %d", hist, len(bs), len(bars))
		}
		for i, b := range bs {
			if b.From != bars[i].From || b.To != bars[i].To || b.Count != bars[i].Count {
				vfail(t, "%s: bucket %d is %+v, expected %+v", hist, i, *b, bars[i])
			}
		}
		if c != nil {
			_ = c.Stop()
		}
	}
}
