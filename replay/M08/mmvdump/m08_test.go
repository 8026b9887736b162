package mmvdump_test

import (
	"testing"

	"github.com/performancecopilot/speed/v4/mmvdump"
)

func TestReplayUnitAccessors(t *testing.T) {
	var us []uint32
	for i := uint(0); i < 32; i++ {
		us = append(us, 1<<i, ^uint32(0)<<i, 0xF<<i)
	}
	for i := 0; i < 2000; i++ {
		us = append(us, vrng.Uint32())
	}
	for _, c := range us {
		u := mmvdump.Unit(c)
		sd := func(sh uint) int8 { return int8(c>>sh<<4) >> 4 }
		if u.SpaceDim() != sd(28) || u.TimeDim() != sd(24) || u.CountDim() != sd(20) ||
			uint32(u.SpaceScale()) != c>>16&15 || uint32(u.TimeScale()) != c>>12&15 || uint32(u.CountScale()) != c>>8&15 {
			vfail(t, "unit code %#x: dims %d %d %d scales %d %d %d", c, u.SpaceDim(), u.TimeDim(), u.CountDim(), u.SpaceScale(), u.TimeScale(), u.CountScale())
		}
	}
}
