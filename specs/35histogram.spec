# The recorder behind a histogram (hdrhistogram.Histogram) is a trusted library.  Its contents are an
# abstract state hst(h); every statistic is a function of that state.
package hdrhistogram
ghost hst(ref) mint
ghost hlow(ref) int64
ghost hhigh(ref) int64
ghost hsig(ref) int
fun hnew(low int64, high int64, sig int) mint
fun hnext(s mint, v int64, n int64) mint
fun htakes(s mint, v int64) bool
fun hmin(s mint) int64
fun hmax(s mint) int64
fun hmean(s mint) float64
fun hdev(s mint) float64
fun hquant(s mint, q float64) int64
fun hbars(s mint) int
fun hbarfrom(s mint, i int) int64
fun hbarto(s mint, i int) int64
fun hbarcount(s mint, i int) int64
extern New(low int64, high int64, sig int) (r)
  flags allocates
  requires [lowest value clamped] 0 <= low && low <= 3600000000
  requires [highest value clamped] 0 <= high && high <= 3600000000
  requires [precision clamped] 1 <= sig && sig <= 5
  ensures r != nil && fresh(r)
  ensures hlow(r) == ite(low < 1, 1, low) && hhigh(r) == high && hsig(r) == sig && hst(r) == hnew(low, high, sig)
extern (h *Histogram) LowestTrackableValue() (r)
  ensures r == hlow(h)
extern (h *Histogram) HighestTrackableValue() (r)
  ensures r == hhigh(h)
extern (h *Histogram) SignificantFigures() (r)
  ensures r == hsig(h)
extern (h *Histogram) RecordValue(v int64) (err)
  modifies hst(h)
  ensures (err == nil) <==> htakes(old(hst(h)), v)
  ensures hst(h) == ite(err == nil, hnext(old(hst(h)), v, 1), old(hst(h)))
extern (h *Histogram) RecordValues(v int64, n int64) (err)
  modifies hst(h)
  ensures (err == nil) <==> htakes(old(hst(h)), v)
  ensures hst(h) == ite(err == nil, hnext(old(hst(h)), v, n), old(hst(h)))
extern (h *Histogram) Min() (r)
  ensures r == hmin(hst(h))
extern (h *Histogram) Max() (r)
  ensures r == hmax(hst(h))
extern (h *Histogram) Mean() (r)
  ensures r === hmean(hst(h))
extern (h *Histogram) StdDev() (r)
  ensures r === hdev(hst(h))
extern (h *Histogram) ValueAtQuantile(q float64) (r)
  ensures r == hquant(hst(h), q)
extern (h *Histogram) ValueAtPercentile(q float64) (r)
  ensures r == hquant(hst(h), q)
extern (h *Histogram) Distribution() (r)
  flags allocates
  ensures fresh(r) && len(r) == hbars(hst(h)) && len(r) <= 1099511627776
  ensures forall i int :: 0 <= i && i < len(r) ==> r[i].From == hbarfrom(hst(h), i) && r[i].To == hbarto(hst(h), i) && r[i].Count == hbarcount(hst(h), i)

package speed
# every integer up to 2^53 is a float64, and recorded values stay below that
define small(n int64) bool = 0 <= n && n <= 9007199254740992
define roundtrip(f float64, n int64) bool = small(n) ==> !isnan(i2f64(n)) && (f == i2f64(n) ==> f2i64(f) == n)
define clamp(v int64) int64 = ite(v < 0, 0, ite(v > 3600000000, 3600000000, v))
define sigclamp(v int) int = ite(v < 1, 1, ite(v > 5, 5, v))
define five(d *PCPInstanceDomain) bool = "min" in d.instances && "max" in d.instances && "mean" in d.instances && "variance" in d.instances && "standard_deviation" in d.instances
define hok(h *PCPHistogram) bool = h != nil && h.h != nil && iok(h.pcpInstanceMetric) && h.t == 5 && five(h.indom)
define hv(h *PCPHistogram, k string) float64 = h.vals[k].val.(float64)
define stats(h *PCPHistogram) bool = feq(hv(h, "min"), i2f64(hmin(hst(h.h)))) && feq(hv(h, "max"), i2f64(hmax(hst(h.h)))) && feq(hv(h, "mean"), hmean(hst(h.h))) && feq(hv(h, "standard_deviation"), hdev(hst(h.h))) && feq(hv(h, "variance"), hdev(hst(h.h)) * hdev(hst(h.h)))
define free(h *PCPHistogram) bool = forall k string :: k in h.vals ==> h.vals[k].update == nil
define samevals(h *PCPHistogram) bool = forall k string :: k in h.vals ==> h.vals[k].val === old(h.vals[k].val)

func NewPCPHistogram(name string, low int64, high int64, sigfigures int, unit MetricUnit, desc []string) (r, err)
  props M07 M10
  requires histogramIndom != nil && len(histogramInstances) == 5 && instfor(histogramIndom, histogramInstances, 5) && five(histogramIndom)
  loopinv {vals Instances, i int} forall k string :: (k in vals) <==> (exists j int :: 0 <= j && j < i && histogramInstances[j] == k)
  loopinv {vals Instances} forall k string :: k in vals ==> vals[k] === boxed(float64, 0.0)
  loopinv {m map[string]*instanceValue} forall k string :: (k in m) <==> visited(k)
  loopinv {m map[string]*instanceValue} forall k string :: k in m ==> m[k] != nil && allocated(m[k]) && m[k].update == nil
  loopinv {m map[string]*instanceValue} len(m) == nvisited()
  loopinv {vals Instances, m map[string]*instanceValue} forall k string :: k in m ==> m[k].val === resolved(DoubleType, vals[k])
  loopinv {vals Instances} forall k string :: visited(k) ==> k in vals && compat(DoubleType, vals[k])
  loopinv {m map[string]*instanceValue} forall k string, l string :: k in m && l in m && k != l ==> m[k] != m[l]
  ensures [accepted exactly] (err == nil) <==> low <= high && metaok(name, desc)
  ensures [metadata] err == nil ==> meta(r.pcpMetricDesc, name, DoubleType, InstantSemantics, unit, desc) && r.indom == histogramIndom
  ensures [usable] err == nil ==> fresh(r) && hok(r) && free(r)
  ensures [statistics start at zero] err == nil ==> (forall k string :: k in r.vals ==> hv(r, k) == 0.0)
  ensures [bounds] err == nil ==> hlow(r.h) == ite(clamp(low) < 1, 1, clamp(low)) && hhigh(r.h) == clamp(high) && hsig(r.h) == sigclamp(sigfigures)

lemma (m *pcpInstanceMetric) setInstance(val interface{}, instance string) (err)
  props M07
  requires iok(m)
  ensures compat(m.t, val) && known(m, instance) && m.vals[instance].update == nil ==> err == nil
  ensures err == nil ==> compat(m.t, val) && known(m, instance) && same(resolved(m.t, val), m.vals[instance].val)
  ensures err != nil && known(m, instance) ==> m.vals[instance].val === old(m.vals[instance].val)
  ensures others(m, instance)
  ensures iok(m)
  modifies m.vals[instance].val, pushed(m.vals[instance].update)
  reads m.vals[instance].val, m.vals[instance].update
  flags nopanic

func (h *PCPHistogram) High() (r)
  props M07
  requires hok(h)
  ensures r == hhigh(h.h)

func (h *PCPHistogram) Low() (r)
  props M07
  requires hok(h)
  ensures r == hlow(h.h)

func (h *PCPHistogram) Max() (r)
  props M07
  requires hok(h)
  assumes [integers up to 2^53 are exact] roundtrip(hv(h, "max"), hmax(hst(h.h))) && small(hmax(hst(h.h)))
  ensures stats(h) ==> r == hmax(hst(h.h))
  ensures r == f2i64(hv(h, "max"))

func (h *PCPHistogram) Min() (r)
  props M07
  requires hok(h)
  assumes [integers up to 2^53 are exact] roundtrip(hv(h, "min"), hmin(hst(h.h))) && small(hmin(hst(h.h)))
  ensures stats(h) ==> r == hmin(hst(h.h))
  ensures r == f2i64(hv(h, "min"))

func (h *PCPHistogram) Mean() (r)
  props M07
  requires hok(h)
  ensures r === hv(h, "mean")

func (h *PCPHistogram) StandardDeviation() (r)
  props M07
  requires hok(h)
  ensures r === hv(h, "standard_deviation")

func (h *PCPHistogram) Variance() (r)
  props M07
  requires hok(h)
  ensures r === hv(h, "variance")

func (h *PCPHistogram) Percentile(p float64) (r)
  props M07
  requires hok(h)
  ensures r == hquant(hst(h.h), p)

func (h *PCPHistogram) Record(val int64) (err)
  props M07
  requires hok(h)
  ensures [recorded] err == nil ==> htakes(old(hst(h.h)), val) && hst(h.h) == hnext(old(hst(h.h)), val, 1)
  ensures [statistics] err == nil ==> stats(h)
  ensures [refused] !htakes(old(hst(h.h)), val) ==> err != nil && hst(h.h) == old(hst(h.h)) && samevals(h)
  ensures [accepted] htakes(old(hst(h.h)), val) && free(h) ==> err == nil
  ensures [invariant] hok(h)
  modifies hst(h.h), all(instanceValue.val), pushed

func (h *PCPHistogram) MustRecord(val int64)
  props M07
  requires hok(h)
  panics may
  onpanic [only for a reason] !htakes(old(hst(h.h)), val) || !free(h)
  onpanic !htakes(old(hst(h.h)), val) ==> hst(h.h) == old(hst(h.h)) && samevals(h)
  onpanic hok(h)
  ensures [statistics] hst(h.h) == hnext(old(hst(h.h)), val, 1) && stats(h) && htakes(old(hst(h.h)), val)
  ensures [invariant] hok(h)
  modifies hst(h.h), all(instanceValue.val), pushed

func (h *PCPHistogram) RecordN(val int64, n int64) (err)
  props M07
  requires hok(h)
  ensures [recorded] err == nil ==> htakes(old(hst(h.h)), val) && hst(h.h) == hnext(old(hst(h.h)), val, n)
  ensures [statistics] err == nil ==> stats(h)
  ensures [refused] !htakes(old(hst(h.h)), val) ==> err != nil && hst(h.h) == old(hst(h.h)) && samevals(h)
  ensures [accepted] htakes(old(hst(h.h)), val) && free(h) ==> err == nil
  ensures [invariant] hok(h)
  modifies hst(h.h), all(instanceValue.val), pushed

func (h *PCPHistogram) MustRecordN(val int64, n int64)
  props M07
  requires hok(h)
  panics may
  onpanic [only for a reason] !htakes(old(hst(h.h)), val) || !free(h)
  onpanic !htakes(old(hst(h.h)), val) ==> hst(h.h) == old(hst(h.h)) && samevals(h)
  onpanic hok(h)
  ensures [statistics] hst(h.h) == hnext(old(hst(h.h)), val, n) && stats(h) && htakes(old(hst(h.h)), val)
  ensures [invariant] hok(h)
  modifies hst(h.h), all(instanceValue.val), pushed

func (h *PCPHistogram) Buckets() (r)
  props M07
  flags allocates
  requires hok(h)
  loopinv {i int, b []*HistogramBucket} forall j int :: 0 <= j && j < i ==> b[j] != nil && allocated(b[j]) && b[j].From == hbarfrom(hst(h.h), j) && b[j].To == hbarto(hst(h.h), j) && b[j].Count == hbarcount(hst(h.h), j)
  ensures len(r) == hbars(hst(h.h))
  ensures forall j int :: 0 <= j && j < len(r) ==> r[j] != nil && r[j].From == hbarfrom(hst(h.h), j) && r[j].To == hbarto(hst(h.h), j) && r[j].Count == hbarcount(hst(h.h), j)

guarded (h *PCPHistogram)
  props M09
  requires hok(h)
  guard h.mutex : all(instanceValue.val), all(instanceValue.update), hst(h.h)
