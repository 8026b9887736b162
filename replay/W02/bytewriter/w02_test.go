package bytewriter_test

import (
	"bytes"
	"encoding/binary"
	"math"
	"testing"

	"github.com/performancecopilot/speed/v4/bytewriter"
)

func enc(v interface{}) []byte {
	if s, ok := v.(string); ok {
		return []byte(s)
	}
	var b bytes.Buffer
	if err := binary.Write(&b, binary.LittleEndian, v); err != nil {
		return nil
	}
	return b.Bytes()
}

type wop struct {
	name string
	val  interface{}
	try  func(w *bytewriter.ByteWriter, off int) (int, error)
	must func(w *bytewriter.ByteWriter, off int) int
}

func wops() []wop {
	var r []wop
	raw := func(d []byte) {
		c := append([]byte(nil), d...)
		r = append(r, wop{"Write", string(d), func(w *bytewriter.ByteWriter, o int) (int, error) { return w.Write(c, o) }, func(w *bytewriter.ByteWriter, o int) int { return w.MustWrite(c, o) }})
	}
	for _, n := range []int{0, 1, 2, 7, 8, 16, 17, 64, 65} {
		d := make([]byte, n)
		vrng.Read(d)
		raw(d)
		for i := range d {
			d[i] |= 1
		}
		s := string(d)
		r = append(r, wop{"WriteString", s, func(w *bytewriter.ByteWriter, o int) (int, error) { return w.WriteString(s, o) }, func(w *bytewriter.ByteWriter, o int) int { return w.MustWriteString(s, o) }})
		r = append(r, wop{"WriteVal", s, func(w *bytewriter.ByteWriter, o int) (int, error) { return w.WriteVal(s, o) }, func(w *bytewriter.ByteWriter, o int) int { return w.MustWriteVal(s, o) }})
	}
	for _, s := range []string{"a\x00", "\x00", "ab\x00", "\x00\x00\x00", "héllo", "12345678\x00", " x ", "x\n"} {
		s := s
		raw([]byte(s))
		r = append(r, wop{"WriteString", s, func(w *bytewriter.ByteWriter, o int) (int, error) { return w.WriteString(s, o) }, func(w *bytewriter.ByteWriter, o int) int { return w.MustWriteString(s, o) }})
		r = append(r, wop{"WriteVal", s, func(w *bytewriter.ByteWriter, o int) (int, error) { return w.WriteVal(s, o) }, func(w *bytewriter.ByteWriter, o int) int { return w.MustWriteVal(s, o) }})
	}
	vals := []interface{}{int32(0), int32(-1), int32(math.MinInt32), int32(0x12345678), uint32(0), uint32(math.MaxUint32), uint32(0x81020304),
		int64(0), int64(-2), int64(math.MinInt64), int64(0x0102030405060708), uint64(math.MaxUint64), uint64(0x8102030405060708), uint64(1 << 32),
		float32(0), float32(1.5), float32(math.Inf(-1)), float32(math.SmallestNonzeroFloat32), float32(math.Copysign(0, -1)), 0.0, 1.1, math.Inf(1), math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64}
	for i := 0; i < 20; i++ {
		u := vrng.Uint64()
		vals = append(vals, int32(u), uint32(u), int64(u), u, float32(vrng.NormFloat64()), vrng.NormFloat64())
	}
	for _, v := range vals {
		v := v
		r = append(r, wop{"WriteVal", v, func(w *bytewriter.ByteWriter, o int) (int, error) { return w.WriteVal(v, o) }, func(w *bytewriter.ByteWriter, o int) int { return w.MustWriteVal(v, o) }})
		switch x := v.(type) {
		case int32:
			r = append(r, wop{"WriteInt32", v, func(w *bytewriter.ByteWriter, o int) (int, error) { return w.WriteInt32(x, o) }, func(w *bytewriter.ByteWriter, o int) int { return w.MustWriteInt32(x, o) }})
		case uint32:
			r = append(r, wop{"WriteUint32", v, func(w *bytewriter.ByteWriter, o int) (int, error) { return w.WriteUint32(x, o) }, func(w *bytewriter.ByteWriter, o int) int { return w.MustWriteUint32(x, o) }})
		case int64:
			r = append(r, wop{"WriteInt64", v, func(w *bytewriter.ByteWriter, o int) (int, error) { return w.WriteInt64(x, o) }, func(w *bytewriter.ByteWriter, o int) int { return w.MustWriteInt64(x, o) }})
		case uint64:
			r = append(r, wop{"WriteUint64", v, func(w *bytewriter.ByteWriter, o int) (int, error) { return w.WriteUint64(x, o) }, func(w *bytewriter.ByteWriter, o int) int { return w.MustWriteUint64(x, o) }})
		case float32:
			r = append(r, wop{"WriteFloat32", v, func(w *bytewriter.ByteWriter, o int) (int, error) { return w.WriteFloat32(x, o) }, func(w *bytewriter.ByteWriter, o int) int { return w.MustWriteFloat32(x, o) }})
		case float64:
			r = append(r, wop{"WriteFloat64", v, func(w *bytewriter.ByteWriter, o int) (int, error) { return w.WriteFloat64(x, o) }, func(w *bytewriter.ByteWriter, o int) int { return w.MustWriteFloat64(x, o) }})
		}
	}
	return r
}

func TestReplayWrites(t *testing.T) {
	for _, o := range wops() {
		want := enc(o.val)
		for _, size := range []int{0, 1, 2, 4, 8, 16, 63, 64, 65, 200} {
			offs := []int{0, 1, 3, 8, size - len(want), size - len(want) + 1, size - len(want) + 2, size - len(want) - 1, size - 1, size, size + 1, -1, -8, math.MaxInt64, math.MaxInt64 - 3, math.MinInt64, 1 << 32}
			for _, off := range offs {
				for _, must := range []bool{false, true} {
					bg := make([]byte, size)
					vrng.Read(bg)
					w := bytewriter.NewByteWriterSlice(append([]byte(nil), bg...))
					exp := append([]byte(nil), bg...)
					ok := off >= 0 && len(want) <= size-off
					if ok {
						copy(exp[off:], want)
					}
					var n int
					var err error
					name := o.name
					if must {
						name = "Must" + name
					}
					p := vcatch(func() {
						if must {
							n = o.must(w, off)
						} else {
							n, err = o.try(w, off)
						}
					})
					id := func() string { return "" }
					_ = id
					if must {
						if (p != nil) == ok {
							vfail(t, "%s(%#v, %d) on a %d byte buffer: panic %v", name, o.val, off, size, p)
						}
					} else {
						if p != nil {
							vfail(t, "%s(%#v, %d) on a %d byte buffer panics: %v", name, o.val, off, size, p)
						}
						if (err == nil) != ok {
							vfail(t, "%s(%#v, %d) on a %d byte buffer: err=%v", name, o.val, off, size, err)
						}
					}
					if ok && n != off+len(want) {
						vfail(t, "%s(%#v, %d) on a %d byte buffer returns %d", name, o.val, off, size, n)
					}
					if !bytes.Equal(w.Bytes(), exp) {
						vfail(t, "%s(%#v, %d) on a %d byte buffer leaves %v want %v", name, o.val, off, size, w.Bytes(), exp)
					}
				}
			}
		}
	}
}

func TestReplayConstruct(t *testing.T) {
	for _, n := range []int{0, 1, 7, 64, 4096} {
		w := bytewriter.NewByteWriter(n)
		if w.Len() != n || len(w.Bytes()) != n || !bytes.Equal(w.Bytes(), make([]byte, n)) {
			vfail(t, "NewByteWriter(%d): Len %d, Bytes %v", n, w.Len(), w.Bytes())
		}
		b := make([]byte, n)
		s := bytewriter.NewByteWriterSlice(b)
		if s.Len() != n || len(s.Bytes()) != n {
			vfail(t, "NewByteWriterSlice(%d bytes): Len %d", n, s.Len())
		}
		if n > 0 {
			s.MustWrite([]byte{9}, n-1)
			if b[n-1] != 9 {
				vfail(t, "NewByteWriterSlice(%d bytes) does not write to its slice", n)
			}
		}
	}
}
