package speed_test

import (
	"testing"

	"github.com/performancecopilot/speed/v4"
)

func setDim(c uint32, sh uint, d int8, scale uint32, scsh uint) uint32 {
	c &^= 0xF<<sh | 0xF<<scsh
	return c | uint32(uint8(d)&0xF)<<sh | (scale&0xF)<<scsh
}

func TestReplayUnits(t *testing.T) {
	spaces := []speed.SpaceUnit{speed.ByteUnit, speed.KilobyteUnit, speed.MegabyteUnit, speed.GigabyteUnit, speed.TerabyteUnit, speed.PetabyteUnit, speed.ExabyteUnit}
	times := []speed.TimeUnit{speed.NanosecondUnit, speed.MicrosecondUnit, speed.MillisecondUnit, speed.SecondUnit, speed.MinuteUnit, speed.HourUnit}
	counts := []speed.CountUnit{speed.OneUnit}
	for i, s := range spaces {
		if s.PMAPI() != 0x10000000|uint32(i)<<16 {
			vfail(t, "SpaceUnit %d encodes as %#x", i, s.PMAPI())
		}
	}
	for i, s := range times {
		if s.PMAPI() != 0x01000000|uint32(i)<<12 {
			vfail(t, "TimeUnit %d encodes as %#x", i, s.PMAPI())
		}
	}
	if counts[0].PMAPI() != 0x00100000 {
		vfail(t, "OneUnit encodes as %#x", counts[0].PMAPI())
	}
	type start struct {
		name string
		mk   func() speed.MetricUnit
		code uint32
		kind int
	}
	starts := []start{{"NewMetricUnit()", speed.NewMetricUnit, 0, -1}}
	for _, s := range spaces {
		s := s
		starts = append(starts, start{"a space unit", func() speed.MetricUnit { return s }, uint32(s), 0})
	}
	for _, s := range times {
		s := s
		starts = append(starts, start{"a time unit", func() speed.MetricUnit { return s }, uint32(s), 1})
	}
	starts = append(starts, start{"OneUnit", func() speed.MetricUnit { return speed.OneUnit }, uint32(speed.OneUnit), 2})
	for it := 0; it < 40000; it++ {
		st := starts[vrng.Intn(len(starts))]
		u, code, plain := st.mk(), st.code, st.kind
		hist := []interface{}{st.name, code}
		for k := 0; k < 4; k++ {
			d := int8(vrng.Intn(24) - 12)
			bad := d < -8 || d > 7
			kind := vrng.Intn(3)
			var r speed.MetricUnit
			var want uint32
			p := vcatch(func() {
				switch kind {
				case 0:
					s := spaces[vrng.Intn(len(spaces))]
					want = setDim(code, 28, d, uint32(s)>>16, 16)
					hist = append(hist, "Space", uint32(s), d)
					r = u.Space(s, d)
				case 1:
					s := times[vrng.Intn(len(times))]
					want = setDim(code, 24, d, uint32(s)>>12, 12)
					hist = append(hist, "Time", uint32(s), d)
					r = u.Time(s, d)
				default:
					want = setDim(code, 20, d, 0, 8)
					hist = append(hist, "Count", d)
					r = u.Count(speed.OneUnit, d)
				}
			})
			if refuse := bad || kind == plain; (p != nil) != refuse {
				vfail(t, "unit composition %v: panic %v", hist, p)
			} else if refuse {
				if u.PMAPI() != code {
					vfail(t, "refused composition %v changes the code to %#x", hist, u.PMAPI())
				}
				break
			}
			if r.PMAPI() != want {
				vfail(t, "unit composition %v encodes as %#x want %#x", hist, r.PMAPI(), want)
			}
			u, code, plain = r, want, -1
			type dims interface {
				SpaceDim() int8
				TimeDim() int8
				CountDim() int8
				SpaceScale() speed.SpaceUnit
				TimeScale() speed.TimeUnit
				CountScale() speed.CountUnit
			}
			if x, ok := r.(dims); ok {
				sd := func(sh uint) int8 { return int8(code<<(28-sh)>>24) >> 4 }
				if x.SpaceDim() != sd(28) || x.TimeDim() != sd(24) || x.CountDim() != sd(20) {
					vfail(t, "unit %v: dimensions read %d %d %d", hist, x.SpaceDim(), x.TimeDim(), x.CountDim())
				}
				chk := func(name string, dim int8, get func() uint32, want uint32) {
					var g uint32
					p := vcatch(func() { g = get() })
					if (p != nil) != (dim == 0) || p == nil && g != want {
						vfail(t, "unit %v: %sScale reads %#x (panic %v) want %#x", hist, name, g, p, want)
					}
				}
				chk("Space", sd(28), func() uint32 { return uint32(x.SpaceScale()) }, 0x10000000|code&0xF0000)
				chk("Time", sd(24), func() uint32 { return uint32(x.TimeScale()) }, 0x01000000|code&0xF000)
				chk("Count", sd(20), func() uint32 { return uint32(x.CountScale()) }, 0x00100000|code&0xF00)
			}
		}
	}
}
