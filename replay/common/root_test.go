package speed_test

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/performancecopilot/speed/v4"
)

// vfail reports a failing input of the real code
func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	fmt.Println("FAILING-INPUT: " + fmt.Sprintf(f, a...))
	t.FailNow()
}

// vcatch runs f and returns the recovered panic value
func vcatch(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

var vrng = rand.New(rand.NewSource(1))

// ---- values

// vcompat: does the value fit the metric type, and as what
func vcompat(t speed.MetricType, v interface{}) (interface{}, bool) {
	switch x := v.(type) {
	case int:
		switch t {
		case speed.Int32Type:
			return int32(x), x >= math.MinInt32 && x <= math.MaxInt32
		case speed.Uint32Type:
			return uint32(x), x >= 0 && x <= math.MaxUint32
		case speed.Int64Type:
			return int64(x), true
		case speed.Uint64Type:
			return uint64(x), x >= 0
		}
	case uint:
		switch t {
		case speed.Uint32Type:
			return uint32(x), x <= math.MaxUint32
		case speed.Uint64Type:
			return uint64(x), true
		}
	case int32:
		return x, t == speed.Int32Type
	case uint32:
		return x, t == speed.Uint32Type
	case int64:
		return x, t == speed.Int64Type
	case uint64:
		return x, t == speed.Uint64Type
	case float32:
		return x, t == speed.FloatType
	case float64:
		switch t {
		case speed.DoubleType:
			return x, true
		case speed.FloatType:
			return float32(x), !math.IsNaN(x) && !math.IsInf(x, 0) && x >= -math.MaxFloat32 && x <= math.MaxFloat32
		}
	case string:
		return x, t == speed.StringType && len(x) <= 255
	}
	return nil, false
}

// vsame compares values, taking NaN as equal to itself
func vsame(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || x != x && y != y)
	case float32:
		y, ok := b.(float32)
		return ok && (x == y || x != x && y != y)
	}
	return a == b
}

var vtypes = []speed.MetricType{speed.Int32Type, speed.Uint32Type, speed.Int64Type, speed.Uint64Type, speed.FloatType, speed.DoubleType, speed.StringType}

func vint64() int64 {
	edge := []int64{0, 1, -1, 2, 255, 256, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 1 << 53, 1<<53 + 1, 1 << 24, 1<<24 + 1}
	switch vrng.Intn(4) {
	case 0, 1:
		return edge[vrng.Intn(len(edge))] + int64(vrng.Intn(3)) - 1
	case 2:
		return int64(vrng.Uint64())
	}
	return int64(vrng.Intn(2000) - 1000)
}

func vfloat64() float64 {
	edge := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 0.5, math.MaxFloat32, -math.MaxFloat32, math.MaxFloat32 * 1.0000001, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.SmallestNonzeroFloat32, math.Inf(1), math.Inf(-1), math.NaN(), 1e300, 1e-300, 16777217, 3.5e38}
	switch vrng.Intn(4) {
	case 0, 1:
		return edge[vrng.Intn(len(edge))]
	case 2:
		return math.Float64frombits(vrng.Uint64())
	}
	return vrng.NormFloat64() * 1000
}

func vstring(max int) string {
	ls := []int{0, 1, 2, 10, 62, 63, 64, 65, 200, 254, 255, 256, 257, 300}
	n := ls[vrng.Intn(len(ls))]
	if n > max {
		n = vrng.Intn(max + 1)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + vrng.Intn(26))
		if vrng.Intn(16) == 0 {
			b[i] = byte(1 + vrng.Intn(255))
		}
	}
	return string(b)
}

func vvalue() interface{} {
	switch vrng.Intn(14) {
	case 0, 1:
		return int(vint64())
	case 2, 3:
		return uint(vint64())
	case 4:
		return int32(vint64())
	case 5:
		return uint32(vint64())
	case 6:
		return vint64()
	case 7:
		return uint64(vint64())
	case 8:
		return float32(vfloat64())
	case 9, 10:
		return vfloat64()
	case 11, 12:
		return vstring(400)
	}
	odd := []interface{}{nil, true, int8(1), uint8(1), int16(3), uint16(3), []byte("x"), struct{}{}, complex(1, 1), [2]int{1, 2}, uintptr(4)}
	return odd[vrng.Intn(len(odd))]
}

// vfit makes a value that fits the type
func vfit(t speed.MetricType) interface{} {
	for {
		v := vvalue()
		if t == speed.StringType && vrng.Intn(2) == 0 {
			v = vstring(255)
		}
		if _, ok := vcompat(t, v); ok {
			return v
		}
	}
}

// ---- exported files

type vtoc struct {
	typ, count int32
	off        uint64
}
type vindom struct {
	off, insoff, short, long uint64
	serial, count            uint32
}
type vinst struct {
	off, indom uint64
	pad        uint32
	id         uint32
	name       string
}
type vmetric struct {
	off, short, long     uint64
	name                 string
	item, typ, sem, unit uint32
	indom, pad           uint32
}
type vval struct {
	off, val, metric, inst uint64
	extra                  int64
}
type vfile struct {
	data                  []byte
	version               uint32
	g1, g2                int64
	ntoc, flag, pid, clus int32
	tocs                  []vtoc
	indoms                []vindom
	insts                 []vinst
	metrics               []vmetric
	vals                  []vval
	strs                  []uint64
	err                   error
}

func vcstr(b []byte) (string, bool) {
	i := strings.IndexByte(string(b), 0)
	if i < 0 {
		return string(b), false
	}
	return string(b[:i]), true
}

func (f *vfile) bad(s string, a ...interface{}) {
	if f.err == nil {
		f.err = fmt.Errorf(s, a...)
	}
}

func (f *vfile) str(off uint64) string {
	if off+256 > uint64(len(f.data)) {
		f.bad("text slot at %d outside the file", off)
		return ""
	}
	s, ok := vcstr(f.data[off : off+256])
	if !ok {
		f.bad("text slot at %d has no terminator", off)
	}
	return s
}

// vparse reads an exported file
func vparse(data []byte) (f *vfile) {
	f = &vfile{data: data}
	defer func() {
		if r := recover(); r != nil {
			f.bad("unreadable file: %v", r)
		}
	}()
	le := binary.LittleEndian
	if string(data[:4]) != "MMV\x00" {
		f.bad("tag %q", data[:4])
	}
	f.version = le.Uint32(data[4:])
	f.g1, f.g2 = int64(le.Uint64(data[8:])), int64(le.Uint64(data[16:]))
	f.ntoc, f.flag, f.pid, f.clus = int32(le.Uint32(data[24:])), int32(le.Uint32(data[28:])), int32(le.Uint32(data[32:])), int32(le.Uint32(data[36:]))
	if f.version != 1 && f.version != 2 {
		f.bad("version %d", f.version)
		return
	}
	for i := 0; i < int(f.ntoc); i++ {
		b := data[40+16*i:]
		t := vtoc{int32(le.Uint32(b)), int32(le.Uint32(b[4:])), le.Uint64(b[8:])}
		f.tocs = append(f.tocs, t)
		for k := 0; k < int(t.count); k++ {
			switch t.typ {
			case 1:
				o := t.off + 32*uint64(k)
				b := data[o : o+32]
				f.indoms = append(f.indoms, vindom{off: o, serial: le.Uint32(b), count: le.Uint32(b[4:]), insoff: le.Uint64(b[8:]), short: le.Uint64(b[16:]), long: le.Uint64(b[24:])})
			case 2:
				n := uint64(80)
				if f.version == 2 {
					n = 24
				}
				o := t.off + n*uint64(k)
				b := data[o : o+n]
				in := vinst{off: o, indom: le.Uint64(b), pad: le.Uint32(b[8:]), id: le.Uint32(b[12:])}
				if f.version == 2 {
					in.name = f.str(le.Uint64(b[16:]))
				} else {
					s, ok := vcstr(b[16:])
					if !ok {
						f.bad("instance name at %d has no terminator", o+16)
					}
					in.name = s
				}
				f.insts = append(f.insts, in)
			case 3:
				n := uint64(104)
				if f.version == 2 {
					n = 48
				}
				o := t.off + n*uint64(k)
				b := data[o : o+n]
				m := vmetric{off: o}
				if f.version == 2 {
					m.name = f.str(le.Uint64(b))
					b = b[8:]
				} else {
					s, ok := vcstr(b[:64])
					if !ok {
						f.bad("metric name at %d has no terminator", o)
					}
					m.name = s
					b = b[64:]
				}
				m.item, m.typ, m.sem, m.unit, m.indom, m.pad = le.Uint32(b), le.Uint32(b[4:]), le.Uint32(b[8:]), le.Uint32(b[12:]), le.Uint32(b[16:]), le.Uint32(b[20:])
				m.short, m.long = le.Uint64(b[24:]), le.Uint64(b[32:])
				f.metrics = append(f.metrics, m)
			case 4:
				o := t.off + 32*uint64(k)
				b := data[o : o+32]
				f.vals = append(f.vals, vval{o, le.Uint64(b), le.Uint64(b[16:]), le.Uint64(b[24:]), int64(le.Uint64(b[8:]))})
			case 5:
				f.strs = append(f.strs, t.off+256*uint64(k))
			default:
				f.bad("section type %d", t.typ)
			}
		}
	}
	return
}

// vread reads the file a client named name exports
func vread(name string) (*vfile, error) {
	data, err := os.ReadFile(filepath.Join(os.TempDir(), "mmv", name))
	if err != nil {
		return nil, err
	}
	f := vparse(data)
	return f, f.err
}

// value is the exported value of a metric, or of one instance of it ("" for none)
func (f *vfile) value(metric, instance string) (interface{}, bool) {
	for _, m := range f.metrics {
		if m.name != metric {
			continue
		}
		for _, v := range f.vals {
			if v.metric != m.off {
				continue
			}
			if v.inst == 0 && instance != "" || v.inst != 0 && instance == "" {
				continue
			}
			ok := v.inst == 0
			for _, i := range f.insts {
				if i.off == v.inst && i.name == instance {
					ok = true
				}
			}
			if !ok {
				continue
			}
			switch speed.MetricType(m.typ) {
			case speed.Int32Type:
				return int32(v.val), v.val>>32 == 0
			case speed.Uint32Type:
				return uint32(v.val), v.val>>32 == 0
			case speed.Int64Type:
				return int64(v.val), true
			case speed.Uint64Type:
				return v.val, true
			case speed.FloatType:
				return math.Float32frombits(uint32(v.val)), v.val>>32 == 0
			case speed.DoubleType:
				return math.Float64frombits(v.val), true
			case speed.StringType:
				return f.str(uint64(v.extra)), true
			}
		}
	}
	return nil, false
}

// vexport starts a client for the metrics; get reads an exported value back
func vexport(t *testing.T, name string, ms ...speed.Metric) (c *speed.PCPClient, get func(metric, instance string) interface{}) {
	c, err := speed.NewPCPClient(name)
	if err != nil {
		t.Skip(err)
	}
	for _, m := range ms {
		if err := c.Register(m); err != nil {
			t.Skip(err)
		}
	}
	if p := vcatch(func() { err = c.Start() }); p != nil || err != nil {
		t.Skip(p, err)
	}
	return c, func(metric, instance string) interface{} {
		f, err := vread(name)
		if err != nil {
			return err
		}
		v, _ := f.value(metric, instance)
		return v
	}
}
