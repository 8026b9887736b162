package mmvdump_test

import (
	"encoding/binary"
	"math"
	"testing"

	"github.com/performancecopilot/speed/v4/bytewriter"
	"github.com/performancecopilot/speed/v4/mmvdump"
)

func TestReplayRoundTrip(t *testing.T) {
	us := []uint64{0, 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 63, math.MaxUint64, 0x3ff8000000000000, 0x8000000000000000, 0x7ff0000000000000}
	for i := 0; i < 500; i++ {
		us = append(us, vrng.Uint64())
	}
	for _, u := range us {
		vals := map[mmvdump.Type]interface{}{mmvdump.Int32Type: int32(u), mmvdump.Uint32Type: uint32(u), mmvdump.Int64Type: int64(u), mmvdump.Uint64Type: u}
		if f := math.Float32frombits(uint32(u)); f == f {
			vals[mmvdump.FloatType] = f
		}
		if f := math.Float64frombits(u); f == f {
			vals[mmvdump.DoubleType] = f
		}
		for ty, v := range vals {
			w := bytewriter.NewByteWriter(8)
			if _, err := w.WriteVal(v, 0); err != nil {
				vfail(t, "WriteVal(%#v): %v", v, err)
			}
			r, err := mmvdump.FixedVal(binary.LittleEndian.Uint64(w.Bytes()), ty)
			if err != nil || r != v {
				vfail(t, "value %#v of type %v written and dumped reads %#v (%v)", v, ty, r, err)
			}
		}
	}
	for ty := mmvdump.Type(-3); ty < 20; ty++ {
		_, err := mmvdump.FixedVal(7, ty)
		if (err == nil) != (ty >= 0 && ty <= 5) {
			vfail(t, "FixedVal of type %d: err=%v", int(ty), err)
		}
	}
}
