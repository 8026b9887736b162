package bytewriter
set field ByteWriter buffer []uint8

define fits(w *ByteWriter, n int, offset int) bool = offset >= 0 && n <= len(w.buffer) - offset

func NewByteWriter(n int) (r)
  props W01
  panics may
  ensures fresh(r) && len(r.buffer) == n && seqeq(r.buffer, 0, n, zeros())

func NewByteWriterSlice(buffer []byte) (r)
  props W01
  ensures fresh(r) && r.buffer === buffer

func (w *ByteWriter) Len() (n)
  props W01
  requires w != nil
  ensures n == len(w.buffer)
  modifies nothing

func (w *ByteWriter) Bytes() (b)
  props W01
  requires w != nil
  ensures b === w.buffer
  modifies nothing

func (w *ByteWriter) Write(data []byte, offset int) (n, err)
  props W01
  requires w != nil && disjoint(data, w.buffer)
  let k := ite(fits(w, len(data), offset), len(data), 0)
  ensures [fails exactly when out of range] (err == nil) <==> fits(w, len(data), offset)
  ensures [position] err == nil ==> n == offset + len(data)
  assign w.buffer[offset..offset+k] := seqof(data)
  loopinv {i int} 0 <= i ==> onlychanged(w.buffer[offset..offset+i])
  loopinv {i int} forall j int :: 0 <= j && j < len(data) ==> data[j] == old(data[j])
  loopinv {i int} forall j int :: 0 <= j && j < i ==> w.buffer[offset+j] == old(data[j])

func (w *ByteWriter) MustWrite(data []byte, offset int) (n)
  props W01
  requires w != nil && disjoint(data, w.buffer)
  panics when !fits(w, len(data), offset)
  onpanic unchanged(w.buffer)
  ensures n == offset + len(data)
  assign w.buffer[offset..offset+len(data)] := seqof(data)

func (w *ByteWriter) WriteString(val string, offset int) (n, err)
  props W01 W02
  requires w != nil
  let k := ite(fits(w, len(val), offset), len(val), 0)
  ensures (err == nil) <==> fits(w, len(val), offset)
  ensures err == nil ==> n == offset + len(val)
  assign w.buffer[offset..offset+k] := strseq(val)

func (w *ByteWriter) MustWriteString(val string, offset int) (n)
  props W01 W02
  requires w != nil
  panics when !fits(w, len(val), offset)
  ensures n == offset + len(val)
  assign w.buffer[offset..offset+len(val)] := strseq(val)

define vallen(v interface{}) int = ite(v is string, len(v.(string)), binlen(v))
define valseq(v interface{}) bseq = ite(v is string, strseq(v.(string)), binseq(v))

func (w *ByteWriter) WriteVal(val interface{}, offset int) (n, err)
  props W01 W02
  requires w != nil
  let sz := vallen(val)
  let ok := sz >= 0 && fits(w, sz, offset)
  ensures (err == nil) <==> ok
  ensures err == nil ==> n == offset + sz
  assign w.buffer[offset..offset+ite(ok, sz, 0)] := valseq(val)

func (w *ByteWriter) MustWriteVal(val interface{}, offset int) (n)
  props W01 W02
  requires w != nil
  let sz := vallen(val)
  panics when !(sz >= 0 && fits(w, sz, offset))
  ensures n == offset + sz
  assign w.buffer[offset..offset+sz] := valseq(val)

func (w *ByteWriter) WriteInt32(val int32, offset int) (n, err)
  props W01 W02
  requires w != nil
  ensures (err == nil) <==> fits(w, 4, offset)
  ensures err == nil ==> n == offset + 4
  assign w.buffer[offset..offset+ite(fits(w, 4, offset), 4, 0)] := le(4, val)

func (w *ByteWriter) MustWriteInt32(val int32, offset int) (n)
  props W01 W02
  requires w != nil
  panics when !fits(w, 4, offset)
  ensures n == offset + 4
  assign w.buffer[offset..offset+4] := le(4, val)

func (w *ByteWriter) WriteUint32(val uint32, offset int) (n, err)
  props W01 W02
  requires w != nil
  ensures (err == nil) <==> fits(w, 4, offset)
  ensures err == nil ==> n == offset + 4
  assign w.buffer[offset..offset+ite(fits(w, 4, offset), 4, 0)] := le(4, val)

func (w *ByteWriter) MustWriteUint32(val uint32, offset int) (n)
  props W01 W02
  requires w != nil
  panics when !fits(w, 4, offset)
  ensures n == offset + 4
  assign w.buffer[offset..offset+4] := le(4, val)

func (w *ByteWriter) WriteFloat32(val float32, offset int) (n, err)
  props W01 W02
  requires w != nil
  ensures (err == nil) <==> fits(w, 4, offset)
  ensures err == nil ==> n == offset + 4
  assign w.buffer[offset..offset+ite(fits(w, 4, offset), 4, 0)] := le(4, f32bits(val))

func (w *ByteWriter) MustWriteFloat32(val float32, offset int) (n)
  props W01 W02
  requires w != nil
  panics when !fits(w, 4, offset)
  ensures n == offset + 4
  assign w.buffer[offset..offset+4] := le(4, f32bits(val))

func (w *ByteWriter) WriteInt64(val int64, offset int) (n, err)
  props W01 W02
  requires w != nil
  ensures (err == nil) <==> fits(w, 8, offset)
  ensures err == nil ==> n == offset + 8
  assign w.buffer[offset..offset+ite(fits(w, 8, offset), 8, 0)] := le(8, val)

func (w *ByteWriter) MustWriteInt64(val int64, offset int) (n)
  props W01 W02
  requires w != nil
  panics when !fits(w, 8, offset)
  ensures n == offset + 8
  assign w.buffer[offset..offset+8] := le(8, val)

func (w *ByteWriter) WriteUint64(val uint64, offset int) (n, err)
  props W01 W02
  requires w != nil
  ensures (err == nil) <==> fits(w, 8, offset)
  ensures err == nil ==> n == offset + 8
  assign w.buffer[offset..offset+ite(fits(w, 8, offset), 8, 0)] := le(8, val)

func (w *ByteWriter) MustWriteUint64(val uint64, offset int) (n)
  props W01 W02
  requires w != nil
  panics when !fits(w, 8, offset)
  ensures n == offset + 8
  assign w.buffer[offset..offset+8] := le(8, val)

func (w *ByteWriter) WriteFloat64(val float64, offset int) (n, err)
  props W01 W02
  requires w != nil
  ensures (err == nil) <==> fits(w, 8, offset)
  ensures err == nil ==> n == offset + 8
  assign w.buffer[offset..offset+ite(fits(w, 8, offset), 8, 0)] := le(8, f64bits(val))

func (w *ByteWriter) MustWriteFloat64(val float64, offset int) (n)
  props W01 W02
  requires w != nil
  panics when !fits(w, 8, offset)
  ensures n == offset + 8
  assign w.buffer[offset..offset+8] := le(8, f64bits(val))

