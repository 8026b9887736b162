package speed
set field metricUnit repr uint32

define sdim(r uint32) int8 = i8(r >> 28) - ite(((r >> 28) & 8) != 0, i8(16), i8(0))
define tdim(r uint32) int8 = i8((r >> 24) & 15) - ite(((r >> 24) & 8) != 0, i8(16), i8(0))
define cdim(r uint32) int8 = i8((r >> 20) & 15) - ite(((r >> 20) & 8) != 0, i8(16), i8(0))
define sscale(r uint32) uint32 = (r >> 16) & 15
define tscale(r uint32) uint32 = (r >> 12) & 15
define cscale(r uint32) uint32 = (r >> 8) & 15
define spart(r uint32) uint32 = r & 0xF00F0000
define tpart(r uint32) uint32 = r & 0x0F00F000
define cpart(r uint32) uint32 = r & 0x00F00F00
define rest(r uint32) uint32 = r & 0x000000FF
define baddim(d int8) bool = d < -8 || d > 7

func (m *metricUnit) Space(s SpaceUnit, dimension int8) (r)
  props M08
  mode bv
  requires m != nil
  panics when baddim(dimension)
  ensures r is *metricUnit && r.(*metricUnit) == m
  ensures [dimension] sdim(m.repr) == dimension
  ensures [scale] sscale(m.repr) == sscale(u32(s))
  ensures [others] tpart(m.repr) == tpart(old(m.repr)) && cpart(m.repr) == cpart(old(m.repr)) && rest(m.repr) == rest(old(m.repr))
  modifies m.repr

func (m *metricUnit) Time(t TimeUnit, dimension int8) (r)
  props M08
  mode bv
  requires m != nil
  panics when baddim(dimension)
  ensures r is *metricUnit && r.(*metricUnit) == m
  ensures [dimension] tdim(m.repr) == dimension
  ensures [scale] tscale(m.repr) == tscale(u32(t))
  ensures [others] spart(m.repr) == spart(old(m.repr)) && cpart(m.repr) == cpart(old(m.repr)) && rest(m.repr) == rest(old(m.repr))
  modifies m.repr

func (m *metricUnit) Count(c CountUnit, dimension int8) (r)
  props M08
  mode bv
  requires m != nil
  panics when baddim(dimension)
  ensures r is *metricUnit && r.(*metricUnit) == m
  ensures [dimension] cdim(m.repr) == dimension
  ensures [scale] cscale(m.repr) == cscale(u32(c))
  ensures [others] spart(m.repr) == spart(old(m.repr)) && tpart(m.repr) == tpart(old(m.repr)) && rest(m.repr) == rest(old(m.repr))
  modifies m.repr

func (m *metricUnit) PMAPI() (r)
  props M08
  mode bv
  requires m != nil
  ensures r == m.repr

func (m *metricUnit) SpaceDim() (r)
  props M08
  mode bv
  requires m != nil
  ensures r == sdim(m.repr)

func (m *metricUnit) TimeDim() (r)
  props M08
  mode bv
  requires m != nil
  ensures r == tdim(m.repr)

func (m *metricUnit) CountDim() (r)
  props M08
  mode bv
  requires m != nil
  ensures r == cdim(m.repr)

func (m *metricUnit) SpaceScale() (r)
  props M08
  mode bv
  requires m != nil
  panics when sdim(m.repr) == 0
  ensures u32(r) == (0x10000000 | (sscale(m.repr) << 16))

func (m *metricUnit) TimeScale() (r)
  props M08
  mode bv
  requires m != nil
  panics when tdim(m.repr) == 0
  ensures u32(r) == (0x01000000 | (tscale(m.repr) << 12))

func (m *metricUnit) CountScale() (r)
  props M08
  mode bv
  requires m != nil
  panics when cdim(m.repr) == 0
  ensures u32(r) == (0x00100000 | (cscale(m.repr) << 8))

func NewMetricUnit() (r)
  props M08
  mode bv
  ensures r is *metricUnit && r.(*metricUnit) != nil && fresh(r.(*metricUnit)) && r.(*metricUnit).repr == 0

func (s SpaceUnit) PMAPI() (r)
  props M08
  mode bv
  ensures r == u32(s)
func (s TimeUnit) PMAPI() (r)
  props M08
  mode bv
  ensures r == u32(s)
func (s CountUnit) PMAPI() (r)
  props M08
  mode bv
  ensures r == u32(s)

func (s SpaceUnit) Space(u SpaceUnit, dimension int8) (r)
  props M08
  mode bv
  flags noreturn
  panics when true

func (s TimeUnit) Time(u TimeUnit, dimension int8) (r)
  props M08
  mode bv
  flags noreturn
  panics when true

func (s CountUnit) Count(u CountUnit, dimension int8) (r)
  props M08
  mode bv
  flags noreturn
  panics when true

define newunit(r MetricUnit) uint32 = r.(*metricUnit).repr

func (s SpaceUnit) Time(t TimeUnit, dimension int8) (r)
  props M08
  mode bv
  panics when baddim(dimension)
  ensures r is *metricUnit && fresh(r.(*metricUnit))
  ensures tdim(newunit(r)) == dimension && tscale(newunit(r)) == tscale(u32(t))
  ensures spart(newunit(r)) == spart(u32(s)) && cpart(newunit(r)) == cpart(u32(s)) && rest(newunit(r)) == rest(u32(s))

func (s SpaceUnit) Count(c CountUnit, dimension int8) (r)
  props M08
  mode bv
  panics when baddim(dimension)
  ensures r is *metricUnit && fresh(r.(*metricUnit))
  ensures cdim(newunit(r)) == dimension && cscale(newunit(r)) == cscale(u32(c))
  ensures spart(newunit(r)) == spart(u32(s)) && tpart(newunit(r)) == tpart(u32(s)) && rest(newunit(r)) == rest(u32(s))

func (t TimeUnit) Space(s SpaceUnit, dimension int8) (r)
  props M08
  mode bv
  panics when baddim(dimension)
  ensures r is *metricUnit && fresh(r.(*metricUnit))
  ensures sdim(newunit(r)) == dimension && sscale(newunit(r)) == sscale(u32(s))
  ensures tpart(newunit(r)) == tpart(u32(t)) && cpart(newunit(r)) == cpart(u32(t)) && rest(newunit(r)) == rest(u32(t))

func (t TimeUnit) Count(c CountUnit, dimension int8) (r)
  props M08
  mode bv
  panics when baddim(dimension)
  ensures r is *metricUnit && fresh(r.(*metricUnit))
  ensures cdim(newunit(r)) == dimension && cscale(newunit(r)) == cscale(u32(c))
  ensures tpart(newunit(r)) == tpart(u32(t)) && spart(newunit(r)) == spart(u32(t)) && rest(newunit(r)) == rest(u32(t))

func (c CountUnit) Space(s SpaceUnit, dimension int8) (r)
  props M08
  mode bv
  panics when baddim(dimension)
  ensures r is *metricUnit && fresh(r.(*metricUnit))
  ensures sdim(newunit(r)) == dimension && sscale(newunit(r)) == sscale(u32(s))
  ensures tpart(newunit(r)) == tpart(u32(c)) && cpart(newunit(r)) == cpart(u32(c)) && rest(newunit(r)) == rest(u32(c))

func (c CountUnit) Time(t TimeUnit, dimension int8) (r)
  props M08
  mode bv
  panics when baddim(dimension)
  ensures r is *metricUnit && fresh(r.(*metricUnit))
  ensures tdim(newunit(r)) == dimension && tscale(newunit(r)) == tscale(u32(t))
  ensures spart(newunit(r)) == spart(u32(c)) && cpart(newunit(r)) == cpart(u32(c)) && rest(newunit(r)) == rest(u32(c))

# the plain units encode themselves at dimension one with their own scale
theorem plainunits()
  props M08
  mode bv
  ensures u32(ByteUnit) == 0x10000000 && u32(KilobyteUnit) == 0x10010000 && u32(MegabyteUnit) == 0x10020000 && u32(GigabyteUnit) == 0x10030000
  ensures u32(TerabyteUnit) == 0x10040000 && u32(PetabyteUnit) == 0x10050000 && u32(ExabyteUnit) == 0x10060000
  ensures u32(NanosecondUnit) == 0x01000000 && u32(MicrosecondUnit) == 0x01001000 && u32(MillisecondUnit) == 0x01002000
  ensures u32(SecondUnit) == 0x01003000 && u32(MinuteUnit) == 0x01004000 && u32(HourUnit) == 0x01005000
  ensures u32(OneUnit) == 0x00100000

package mmvdump
func (u Unit) SpaceScale() (r)
  props M08 D04
  mode bv
  ensures u32(r) == sscale(u32(u))
func (u Unit) TimeScale() (r)
  props M08 D04
  mode bv
  ensures u32(r) == tscale(u32(u))
func (u Unit) CountScale() (r)
  props M08 D04
  mode bv
  ensures u32(r) == cscale(u32(u))
func (u Unit) SpaceDim() (r)
  props M08 D04
  mode bv
  ensures r == sdim(u32(u))
func (u Unit) TimeDim() (r)
  props M08 D04
  mode bv
  ensures r == tdim(u32(u))
func (u Unit) CountDim() (r)
  props M08 D04
  mode bv
  ensures r == cdim(u32(u))

func FixedVal(data uint64, t Type) (v, err)
  props W02 D04
  ensures [int32] t == 0 ==> err == nil && v === boxed(int32, i32(data))
  ensures [uint32] t == 1 ==> err == nil && v === boxed(uint32, u32(data))
  ensures [int64] t == 2 ==> err == nil && v === boxed(int64, i64(data))
  ensures [uint64] t == 3 ==> err == nil && v === boxed(uint64, data)
  ensures [float] t == 4 ==> err == nil && v === boxed(float32, f32from(u32(data)))
  ensures [double] t == 5 ==> err == nil && v === boxed(float64, f64from(data))
  ensures [others] t < 0 || t > 5 ==> err != nil

# a typed write followed by decoding the slot gives the value back
theorem roundtrip32(b []byte, v int32, u uint32, f float32)
  props W02 D04
  requires len(b) >= 8
  ensures [int32] seqeq(b, 0, 4, le(4, v)) ==> i32(dec(uint64, b, 0)) == v
  ensures [uint32] seqeq(b, 0, 4, le(4, u)) ==> u32(dec(uint64, b, 0)) == u
  ensures [float32] seqeq(b, 0, 4, le(4, f32bits(f))) ==> f32from(u32(dec(uint64, b, 0))) === f

theorem roundtrip64(b []byte, v int64, u uint64, f float64)
  props W02 D04
  requires len(b) >= 8
  ensures [int64] seqeq(b, 0, 8, le(8, v)) ==> i64(dec(uint64, b, 0)) == v
  ensures [uint64] seqeq(b, 0, 8, le(8, u)) ==> dec(uint64, b, 0) == u
  ensures [float64] seqeq(b, 0, 8, le(8, f64bits(f))) ==> f64from(dec(uint64, b, 0)) === f
