# Contracts assumed on library functions (trusted externs).  Ghost state models their effect.

package bytes
ghost bufseq(ref) bseq
ghost buflen(ref) int

extern NewBuffer(b []byte) (r)
  flags allocates
  ensures r != nil && fresh(r)
  ensures buflen(r) == len(b)

extern (b *Buffer) Bytes() (s)
  flags allocates
  requires [initialised buffer] b != nil
  ensures len(s) == buflen(b) && len(s) <= cap(s) && fresh(s)
  ensures seqeq(s, 0, buflen(b), bufseq(b))

package binary
fun binotherlen(v interface{}) int
fun binotherseq(v interface{}) bseq
define bin1(v interface{}) bool = v is int8 || v is uint8 || v is bool
define bin2(v interface{}) bool = v is int16 || v is uint16
define bin4(v interface{}) bool = v is int32 || v is uint32 || v is float32
define bin8(v interface{}) bool = v is int64 || v is uint64 || v is float64
define binbad(v interface{}) bool = v === nil || v is int || v is uint || v is string
define binlen(v interface{}) int = ite(bin4(v), 4, ite(bin8(v), 8, ite(bin2(v), 2, ite(bin1(v), 1, ite(binbad(v), -1, binotherlen(v))))))
define bin4seq(v interface{}) bseq = ite(v is int32, le(4, v.(int32)), ite(v is uint32, le(4, v.(uint32)), le(4, f32bits(v.(float32)))))
define bin8seq(v interface{}) bseq = ite(v is int64, le(8, v.(int64)), ite(v is uint64, le(8, v.(uint64)), le(8, f64bits(v.(float64)))))
define binseq(v interface{}) bseq = ite(bin4(v), bin4seq(v), ite(bin8(v), bin8seq(v), binotherseq(v)))

extern Write(w, order, data) (err)
  requires [little-endian order] order is binary.littleEndian
  requires [empty buffer] w is *bytes.Buffer && buflen(ptrof(w)) == 0
  ensures (err == nil) <==> binlen(data) >= 0
  assign buflen(ptrof(w)) := ite(binlen(data) >= 0, binlen(data), 0)
  assign bufseq(ptrof(w)) := binseq(data)

set inline binary.littleEndian.PutUint16 binary.littleEndian.PutUint32 binary.littleEndian.PutUint64
set inline binary.littleEndian.Uint16 binary.littleEndian.Uint32 binary.littleEndian.Uint64
set inline binary.littleEndian.AppendUint32 binary.littleEndian.AppendUint64 binary.littleEndian.AppendUint16

package time
set inline time.Duration.Seconds time.Duration.Minutes time.Duration.Hours time.Duration.Nanoseconds time.Duration.Microseconds time.Duration.Milliseconds
# the monotonic clock, in nanoseconds
ghost clock() mint
fun tns(wall uint64, ext int64) mint
extern Now() (r)
  modifies clock()
  ensures clock() >= old(clock()) && tns(r.wall, r.ext) == clock()
extern Since(t Time) (d)
  modifies clock()
  ensures clock() >= old(clock())
  ensures clock() - tns(t.wall, t.ext) <= 9223372036854775807 && clock() - tns(t.wall, t.ext) >= -9223372036854775808 ==> d == clock() - tns(t.wall, t.ext)

# seconds since 1970; the clock of the machine is set
fun tunix(wall uint64, ext int64) int64
extern (t Time) Unix() (r)
  ensures r == tunix(t.wall, t.ext) && r != 0

package os
fun pid() int
extern Getpid() (r)
  ensures r == pid()

# the directory for temporary files
fun tmpdir() string
extern TempDir() (r)
  ensures r == tmpdir()

package strings
# hasrune(s, r): the text s contains the character r
fun hasrune(s string, r int32) bool
extern ContainsRune(s string, r int32) (b)
  ensures b <==> hasrune(s, r)

package filepath
# the path of an entry of a directory (of an entry of an entry)
fun joined2(a string, b string) string
fun joined3(a string, b string, c string) string
extern Join(elem []string) (r)
  ensures len(elem) == 2 ==> r == joined2(elem[0], elem[1])
  ensures len(elem) == 3 ==> r == joined3(elem[0], elem[1], elem[2])

package fnv
fun fnv1a(s string) uint32
ghost hashed(ref) string
extern New32a() (h)
  flags allocates
  ensures h === boxedp(sum32a, freshref())
  ensures hashed(ptrof(h)) == ""

extern (s *sum32a) Write(p []byte) (n, err)
  ensures err == nil && n == len(p)
  assign hashed(s) := hashed(s) + strof(p)
extern (s *sum32a) Sum32() (r)
  ensures r == fnv1a(hashed(s))
