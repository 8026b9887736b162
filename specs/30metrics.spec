package speed
set field pcpMetricDesc name string
set field pcpMetricDesc id uint32
set field pcpMetricDesc t MetricType
set field pcpMetricDesc sem MetricSemantics
set field pcpMetricDesc u MetricUnit
set field pcpMetricDesc shortDescription string
set field pcpMetricDesc longDescription string
set field pcpSingletonMetric val interface{}
set field pcpSingletonMetric update updateClosure
set field instanceValue val interface{}
set field instanceValue update updateClosure
set field pcpInstanceMetric indom *PCPInstanceDomain
set field pcpInstanceMetric vals map[string]*instanceValue
set field PCPInstanceDomain instances map[string]*pcpInstance

# what a value update writes to the exported slot (an update closure's last accepted value)
ghost pushed(ref) interface{}

functype updateClosure(val) (err)
  modifies pushed(self)
  ensures err == nil ==> pushed(self) === val
  ensures err != nil ==> pushed(self) === old(pushed(self))

# ---- values and types
define intin(t MetricType, v mint) bool = ite(t == 0, -2147483648 <= v && v <= 2147483647, ite(t == 1, 0 <= v && v <= 4294967295, ite(t == 2, -9223372036854775808 <= v && v <= 9223372036854775807, t == 3 && 0 <= v && v <= 18446744073709551615)))
define finite(v float64) bool = !isnan(v) && !isinf(v)
define f32range(v float64) bool = -3.40282346638528859811704183484516925440e+38 <= v && v <= 3.40282346638528859811704183484516925440e+38
defopaque compat(t MetricType, v interface{}) bool = v is string && t == 6 && len(v.(string)) <= 255 || v is int && intin(t, v.(int)) || v is uint && intin(t, v.(uint)) && (t == 1 || t == 3) || v is int32 && t == 0 || v is uint32 && t == 1 || v is int64 && t == 2 || v is uint64 && t == 3 || v is float32 && t == 4 || v is float64 && (t == 5 || t == 4 && finite(v.(float64)) && f32range(v.(float64)))
# the value of the type that represents an accepted value
defopaque resolved(t MetricType, v interface{}) interface{} = ite(v is int, ite(t == 0, boxed(int32, i32(v.(int))), ite(t == 1, boxed(uint32, u32(v.(int))), ite(t == 2, boxed(int64, i64(v.(int))), boxed(uint64, u64(v.(int)))))), ite(v is uint, ite(t == 1, boxed(uint32, u32(v.(uint))), boxed(uint64, u64(v.(uint)))), ite(v is float64 && t == 4, boxed(float32, tof32(v.(float64))), v)))
define tyok(t MetricType, v interface{}) bool = t == 0 && v is int32 || t == 1 && v is uint32 || t == 2 && v is int64 || t == 3 && v is uint64 || t == 4 && v is float32 || t == 5 && v is float64 || t == 6 && v is string && len(v.(string)) <= 255

func (m MetricType) IsCompatible(val interface{}) (r)
  props M01
  ensures [exact] r <==> compat(m, val)
  reads nothing
  flags nopanic

lemma (m MetricType) resolve(val interface{}) (r)
  props M01
  flags always
  ensures compat(m, val) ==> r === resolved(m, val)
  reads nothing

# ---- singleton metrics
define pushok(u updateClosure, v interface{}) bool = u != nil ==> pushed(u) === v
define sok(m *pcpSingletonMetric) bool = m != nil && m.pcpMetricDesc != nil && tyok(m.t, m.val) && pushok(m.update, m.val)
define same(a interface{}, b interface{}) bool = a == b || a === b
define feq(a float64, b float64) bool = a == b || isnan(a) && isnan(b)

func (m *PCPSingletonMetric) Val() (r)
  props M02
  requires m != nil && sok(m.pcpSingletonMetric)
  ensures r === m.val

func (m *PCPSingletonMetric) Set(val interface{}) (err)
  props M01 M02
  requires m != nil && sok(m.pcpSingletonMetric)
  ensures [exactly the compatible values are accepted] !compat(m.t, val) ==> err != nil
  ensures [accepted] compat(m.t, val) && m.update == nil ==> err == nil
  ensures [lossless] err == nil ==> tyok(m.t, m.val) && same(resolved(m.t, val), m.val)
  ensures [stored] err == nil ==> compat(m.t, val) && same(resolved(m.t, val), m.val)
  ensures [refused] err != nil ==> m.val === old(m.val)
  ensures [refusals only for a reason] err != nil ==> !compat(m.t, val) || m.update != nil
  ensures [exported slot agrees] sok(m.pcpSingletonMetric)
  modifies m.val, pushed(m.update)

func (m *PCPSingletonMetric) MustSet(val interface{})
  props M02
  requires m != nil && sok(m.pcpSingletonMetric)
  panics may
  onpanic m.val === old(m.val) && sok(m.pcpSingletonMetric)
  onpanic [only for a reason] !compat(m.t, val) || m.update != nil
  ensures [stored] compat(m.t, val) && same(resolved(m.t, val), m.val)
  ensures [exported slot agrees] sok(m.pcpSingletonMetric)
  modifies m.val, pushed(m.update)

# ---- counters: int64 singletons
define cok(c *PCPCounter) bool = c != nil && sok(c.pcpSingletonMetric) && c.t == 2
define cv(c *PCPCounter) int64 = c.val.(int64)

func (c *PCPCounter) Val() (r)
  props M03
  requires cok(c)
  ensures r == cv(c)

func (c *PCPCounter) Set(val int64) (err)
  props M02 M03
  requires cok(c)
  ensures [never backwards] cv(c) >= old(cv(c))
  ensures [set] err == nil ==> cv(c) == val
  ensures [refused] err != nil ==> c.val === old(c.val)
  ensures [smaller refused] val < old(cv(c)) ==> err != nil
  ensures [accepted] val >= old(cv(c)) && c.update == nil ==> err == nil
  ensures [invariant] cok(c)
  modifies c.val, pushed(c.update)

func (c *PCPCounter) Inc(val int64) (err)
  props M02 M03
  requires cok(c)
  ensures [never backwards] cv(c) >= old(cv(c))
  ensures [adds] err == nil ==> cv(c) == old(cv(c)) + val
  ensures [refused] err != nil ==> c.val === old(c.val)
  ensures [negative refused] val < 0 ==> err != nil
  ensures [overflow refused] old(cv(c)) + val > 9223372036854775807 ==> err != nil
  ensures [accepted] val >= 0 && old(cv(c)) + val <= 9223372036854775807 && c.update == nil ==> err == nil
  ensures [invariant] cok(c)
  modifies c.val, pushed(c.update)

func (c *PCPCounter) MustInc(val int64)
  props M02 M03
  requires cok(c)
  panics may
  onpanic c.val === old(c.val) && cok(c)
  onpanic [only for a reason] val < 0 || old(cv(c)) + val > 9223372036854775807 || c.update != nil
  ensures [adds] val >= 0 && cv(c) == old(cv(c)) + val
  ensures [invariant] cok(c)
  modifies c.val, pushed(c.update)

func (c *PCPCounter) Up()
  props M02 M03
  requires cok(c)
  panics may
  onpanic c.val === old(c.val) && cok(c)
  onpanic [only for a reason] old(cv(c)) == 9223372036854775807 || c.update != nil
  ensures [adds one] cv(c) == old(cv(c)) + 1
  ensures [invariant] cok(c)
  modifies c.val, pushed(c.update)

# ---- gauges: float64 singletons
define gok(g *PCPGauge) bool = g != nil && sok(g.pcpSingletonMetric) && g.t == 5
define gv(g *PCPGauge) float64 = g.val.(float64)

func (g *PCPGauge) Val() (r)
  props M04
  requires gok(g)
  ensures r === gv(g)

func (g *PCPGauge) Set(val float64) (err)
  props M02 M04
  requires gok(g)
  ensures [set] err == nil ==> feq(gv(g), val)
  ensures [refused] err != nil ==> g.val === old(g.val)
  ensures [accepted] g.update == nil ==> err == nil
  ensures [invariant] gok(g)
  modifies g.val, pushed(g.update)

func (g *PCPGauge) MustSet(val float64)
  props M02 M04
  requires gok(g)
  panics may
  onpanic [only for a reason] g.val === old(g.val) && gok(g) && g.update != nil
  ensures [set] feq(gv(g), val)
  ensures [invariant] gok(g)
  modifies g.val, pushed(g.update)

func (g *PCPGauge) Inc(val float64) (err)
  props M02 M04
  requires gok(g)
  ensures [adds] err == nil ==> feq(gv(g), old(gv(g)) + val)
  ensures [refused] err != nil ==> g.val === old(g.val)
  ensures [accepted] g.update == nil ==> err == nil
  ensures [invariant] gok(g)
  modifies g.val, pushed(g.update)

func (g *PCPGauge) MustInc(val float64)
  props M02 M04
  requires gok(g)
  panics may
  onpanic [only for a reason] g.val === old(g.val) && gok(g) && g.update != nil
  ensures [adds] feq(gv(g), old(gv(g)) + val)
  ensures [invariant] gok(g)
  modifies g.val, pushed(g.update)

func (g *PCPGauge) Dec(val float64) (err)
  props M02 M04
  requires gok(g)
  ensures [subtracts] err == nil ==> feq(gv(g), old(gv(g)) - val)
  ensures [refused] err != nil ==> g.val === old(g.val)
  ensures [accepted] g.update == nil ==> err == nil
  ensures [invariant] gok(g)
  modifies g.val, pushed(g.update)

func (g *PCPGauge) MustDec(val float64)
  props M02 M04
  requires gok(g)
  panics may
  onpanic [only for a reason] g.val === old(g.val) && gok(g) && g.update != nil
  ensures [subtracts] feq(gv(g), old(gv(g)) - val)
  ensures [invariant] gok(g)
  modifies g.val, pushed(g.update)

# ---- timers
define tok(t *PCPTimer) bool = t != nil && sok(t.pcpSingletonMetric) && t.t == 5 && t.u is TimeUnit
define tv(t *PCPTimer) float64 = t.val.(float64)
define elapsed(u TimeUnit, ns int64) float64 = ite(u == NanosecondUnit, i2f64(ns), ite(u == MicrosecondUnit, i2f64(ns) * 1e-3, ite(u == MillisecondUnit, i2f64(ns) * 1e-6, ite(u == SecondUnit, secs(ns), ite(u == MinuteUnit, mins(ns), hrs(ns))))))
define secs(ns int64) float64 = i2f64(ns / 1000000000) + i2f64(ns % 1000000000) / 1e9
define mins(ns int64) float64 = i2f64(ns / 60000000000) + i2f64(ns % 60000000000) / 60e9
define hrs(ns int64) float64 = i2f64(ns / 3600000000000) + i2f64(ns % 3600000000000) / 3600e9
define sixunits(u TimeUnit) bool = u == NanosecondUnit || u == MicrosecondUnit || u == MillisecondUnit || u == SecondUnit || u == MinuteUnit || u == HourUnit
define started_at(t *PCPTimer) mint = tns(t.since.wall, t.since.ext)
define since_start(t *PCPTimer) mint = clock() - old(started_at(t))

func (t *PCPTimer) Start() (err)
  props M05
  requires tok(t)
  ensures [only when stopped] (err == nil) <==> !old(t.started)
  ensures [running] t.started
  ensures [start time] err == nil ==> started_at(t) == clock() && clock() >= old(clock())
  ensures [refused] err != nil ==> t.started == old(t.started) && started_at(t) == old(started_at(t))
  ensures [invariant] tok(t)
  modifies t.started, t.since, clock()

func (t *PCPTimer) Stop() (r, err)
  props M02 M05
  requires tok(t) && (t.started ==> started_at(t) <= clock())
  ensures [only when started] !old(t.started) ==> err != nil
  ensures [accepted] old(t.started) && t.update == nil ==> err == nil
  ensures [stopped] err == nil ==> !t.started
  ensures [refused] err != nil ==> t.val === old(t.val) && t.started == old(t.started)
  ensures [adds the elapsed time] err == nil && sixunits(t.u.(TimeUnit)) && since_start(t) <= 9223372036854775807 ==> feq(tv(t), old(tv(t)) + elapsed(t.u.(TimeUnit), since_start(t)))
  ensures [returns the total] err == nil ==> feq(r, tv(t))
  ensures [invariant] tok(t)
  modifies t.started, t.val, pushed(t.update), clock()

func (t *PCPTimer) Reset() (err)
  props M02 M05
  requires tok(t)
  ensures [refused while running] old(t.started) ==> err != nil
  ensures [zero] err == nil ==> tv(t) == 0.0
  ensures [refused] err != nil ==> t.val === old(t.val)
  ensures [accepted] !old(t.started) && t.update == nil ==> err == nil
  ensures [invariant] tok(t)
  modifies t.val, pushed(t.update)

# ---- instance metrics
define iok(m *pcpInstanceMetric) bool = m != nil && m.pcpMetricDesc != nil && m.indom != nil && len(m.vals) == len(m.indom.instances) && (forall k string :: (k in m.vals) <==> (k in m.indom.instances)) && (forall k string :: k in m.vals ==> m.vals[k] != nil && tyok(m.t, m.vals[k].val) && pushok(m.vals[k].update, m.vals[k].val)) && (forall k string, l string :: k in m.vals && l in m.vals && k != l ==> m.vals[k] != m.vals[l] && (m.vals[k].update != nil ==> m.vals[k].update != m.vals[l].update))
define iv(m *pcpInstanceMetric, k string) interface{} = m.vals[k].val
define known(m *pcpInstanceMetric, k string) bool = k in m.indom.instances
define others(m *pcpInstanceMetric, k string) bool = forall l string :: known(m, l) && l != k ==> m.vals[l].val === old(m.vals[l].val)

func (indom *PCPInstanceDomain) HasInstance(name string) (r)
  props M06
  requires indom != nil
  ensures r <==> (name in indom.instances)

func (indom *PCPInstanceDomain) InstanceCount() (r)
  props M06
  requires indom != nil
  ensures r == len(indom.instances)

func (m *PCPInstanceMetric) ValInstance(instance string) (r, err)
  props M06
  requires m != nil && iok(m.pcpInstanceMetric)
  ensures [unknown] (err == nil) <==> known(m.pcpInstanceMetric, instance)
  ensures [value] err == nil ==> r === iv(m.pcpInstanceMetric, instance)

func (m *PCPInstanceMetric) SetInstance(val interface{}, instance string) (err)
  props M01 M06
  requires m != nil && iok(m.pcpInstanceMetric)
  ensures [exactly the compatible values are accepted] !compat(m.t, val) ==> err != nil
  ensures [accepted] compat(m.t, val) && known(m.pcpInstanceMetric, instance) && m.vals[instance].update == nil ==> err == nil
  ensures [lossless] err == nil ==> tyok(m.t, m.vals[instance].val)
  ensures [unknown] !known(m.pcpInstanceMetric, instance) ==> err != nil
  ensures [stored] err == nil ==> same(resolved(m.t, val), m.vals[instance].val)
  ensures [refused] err != nil && known(m.pcpInstanceMetric, instance) ==> m.vals[instance].val === old(m.vals[instance].val)
  ensures [others unchanged] others(m.pcpInstanceMetric, instance)
  ensures [exported slot agrees] iok(m.pcpInstanceMetric)
  modifies m.vals[instance].val, pushed(m.vals[instance].update)

func (m *PCPInstanceMetric) MustSetInstance(val interface{}, instance string)
  props M06
  requires m != nil && iok(m.pcpInstanceMetric)
  panics may
  onpanic [only for a reason] !compat(m.t, val) || !known(m.pcpInstanceMetric, instance) || m.vals[instance].update != nil
  onpanic known(m.pcpInstanceMetric, instance) ==> m.vals[instance].val === old(m.vals[instance].val)
  onpanic iok(m.pcpInstanceMetric)
  ensures [stored] compat(m.t, val) && known(m.pcpInstanceMetric, instance) && same(resolved(m.t, val), m.vals[instance].val)
  ensures [others unchanged] others(m.pcpInstanceMetric, instance)
  ensures iok(m.pcpInstanceMetric)
  modifies m.vals[instance].val, pushed(m.vals[instance].update)

# ---- counter vectors
define cvok(c *PCPCounterVector) bool = c != nil && iok(c.pcpInstanceMetric) && c.t == 2
define cvi(c *PCPCounterVector, k string) int64 = c.vals[k].val.(int64)

func (c *PCPCounterVector) Val(instance string) (r, err)
  props M03 M06
  requires cvok(c)
  ensures [unknown] (err == nil) <==> known(c.pcpInstanceMetric, instance)
  ensures [value] err == nil ==> r == cvi(c, instance)

func (c *PCPCounterVector) Set(val int64, instance string) (err)
  props M03 M06
  requires cvok(c)
  ensures [unknown] !known(c.pcpInstanceMetric, instance) ==> err != nil
  ensures [never backwards] known(c.pcpInstanceMetric, instance) ==> cvi(c, instance) >= old(cvi(c, instance))
  ensures [set] err == nil ==> cvi(c, instance) == val
  ensures [refused] err != nil && known(c.pcpInstanceMetric, instance) ==> cvi(c, instance) == old(cvi(c, instance))
  ensures [smaller refused] known(c.pcpInstanceMetric, instance) && val < old(cvi(c, instance)) ==> err != nil
  ensures [accepted] known(c.pcpInstanceMetric, instance) && val >= old(cvi(c, instance)) && c.vals[instance].update == nil ==> err == nil
  ensures [others unchanged] others(c.pcpInstanceMetric, instance)
  ensures [invariant] cvok(c)
  modifies c.vals[instance].val, pushed(c.vals[instance].update)

func (c *PCPCounterVector) MustSet(val int64, instance string)
  props M03 M06
  requires cvok(c)
  panics may
  onpanic [only for a reason] !known(c.pcpInstanceMetric, instance) || val < old(cvi(c, instance)) || c.vals[instance].update != nil
  onpanic known(c.pcpInstanceMetric, instance) ==> cvi(c, instance) == old(cvi(c, instance))
  onpanic cvok(c)
  ensures [set] known(c.pcpInstanceMetric, instance) && cvi(c, instance) == val && val >= old(cvi(c, instance))
  ensures [others unchanged] others(c.pcpInstanceMetric, instance)
  ensures [invariant] cvok(c)
  modifies c.vals[instance].val, pushed(c.vals[instance].update)

func (c *PCPCounterVector) Inc(inc int64, instance string) (err)
  props M03 M06
  requires cvok(c)
  ensures [unknown] !known(c.pcpInstanceMetric, instance) && inc != 0 ==> err != nil
  ensures [never backwards] known(c.pcpInstanceMetric, instance) ==> cvi(c, instance) >= old(cvi(c, instance))
  ensures [adds] err == nil && known(c.pcpInstanceMetric, instance) ==> cvi(c, instance) == old(cvi(c, instance)) + inc
  ensures [refused] err != nil && known(c.pcpInstanceMetric, instance) ==> cvi(c, instance) == old(cvi(c, instance))
  ensures [negative refused] inc < 0 ==> err != nil
  ensures [overflow refused] known(c.pcpInstanceMetric, instance) && old(cvi(c, instance)) + inc > 9223372036854775807 ==> err != nil
  ensures [accepted] known(c.pcpInstanceMetric, instance) && inc >= 0 && old(cvi(c, instance)) + inc <= 9223372036854775807 && c.vals[instance].update == nil ==> err == nil
  ensures [others unchanged] others(c.pcpInstanceMetric, instance)
  ensures [invariant] cvok(c)
  modifies c.vals[instance].val, pushed(c.vals[instance].update)

define incbad(c *PCPCounterVector, inc int64, instance string) bool = !known(c.pcpInstanceMetric, instance) || inc < 0 || cvi(c, instance) + inc > 9223372036854775807
func (c *PCPCounterVector) MustInc(inc int64, instance string)
  props M03 M06
  requires cvok(c)
  panics may
  onpanic [only for a reason] old(incbad(c, inc, instance)) || c.vals[instance].update != nil
  onpanic known(c.pcpInstanceMetric, instance) ==> cvi(c, instance) == old(cvi(c, instance))
  onpanic cvok(c)
  ensures [adds] inc >= 0 && (known(c.pcpInstanceMetric, instance) ==> cvi(c, instance) == old(cvi(c, instance)) + inc)
  ensures [unknown] inc != 0 ==> known(c.pcpInstanceMetric, instance)
  ensures [others unchanged] others(c.pcpInstanceMetric, instance)
  ensures [invariant] cvok(c)
  modifies c.vals[instance].val, pushed(c.vals[instance].update)

func (c *PCPCounterVector) Up(instance string)
  props M03 M06
  requires cvok(c)
  panics may
  onpanic [only for a reason] old(incbad(c, 1, instance)) || c.vals[instance].update != nil
  onpanic known(c.pcpInstanceMetric, instance) ==> cvi(c, instance) == old(cvi(c, instance))
  onpanic cvok(c)
  ensures [adds one] known(c.pcpInstanceMetric, instance) && cvi(c, instance) == old(cvi(c, instance)) + 1
  ensures [others unchanged] others(c.pcpInstanceMetric, instance)
  ensures [invariant] cvok(c)
  modifies c.vals[instance].val, pushed(c.vals[instance].update)

define nonebackwards(c *PCPCounterVector) bool = forall l string :: known(c.pcpInstanceMetric, l) ==> cvi(c, l) >= old(cvi(c, l))
func (c *PCPCounterVector) SetAll(val int64)
  props M03 M06
  requires cvok(c)
  panics may
  loopinv cvok(c) && nonebackwards(c)
  loopinv forall l string :: known(c.pcpInstanceMetric, l) ==> cvi(c, l) == ite(visited(l), val, old(cvi(c, l)))
  onpanic [never backwards] nonebackwards(c) && cvok(c)
  ensures [never backwards] nonebackwards(c)
  ensures [all set] forall l string :: known(c.pcpInstanceMetric, l) ==> cvi(c, l) == val
  ensures [invariant] cvok(c)
  modifies all(instanceValue.val), pushed

func (c *PCPCounterVector) IncAll(val int64)
  props M03 M06
  requires cvok(c)
  panics may
  loopinv cvok(c) && nonebackwards(c)
  loopinv forall l string :: known(c.pcpInstanceMetric, l) ==> cvi(c, l) == old(cvi(c, l)) + ite(visited(l), val, 0)
  onpanic [never backwards] nonebackwards(c) && cvok(c)
  ensures [never backwards] nonebackwards(c)
  ensures [all increased] forall l string :: known(c.pcpInstanceMetric, l) ==> cvi(c, l) == old(cvi(c, l)) + val
  ensures [invariant] cvok(c)
  modifies all(instanceValue.val), pushed

func (c *PCPCounterVector) UpAll()
  props M03 M06
  requires cvok(c)
  panics may
  onpanic [never backwards] nonebackwards(c) && cvok(c)
  ensures [all increased] forall l string :: known(c.pcpInstanceMetric, l) ==> cvi(c, l) == old(cvi(c, l)) + 1
  ensures [invariant] cvok(c)
  modifies all(instanceValue.val), pushed

# ---- gauge vectors
define gvok(c *PCPGaugeVector) bool = c != nil && iok(c.pcpInstanceMetric) && c.t == 5
define gvi(c *PCPGaugeVector, k string) float64 = c.vals[k].val.(float64)

func (g *PCPGaugeVector) Val(instance string) (r, err)
  props M04 M06
  requires gvok(g)
  ensures [unknown] (err == nil) <==> known(g.pcpInstanceMetric, instance)
  ensures [value] err == nil ==> r === gvi(g, instance)

func (g *PCPGaugeVector) Set(val float64, instance string) (err)
  props M04 M06
  requires gvok(g)
  ensures [unknown] !known(g.pcpInstanceMetric, instance) ==> err != nil
  ensures [set] err == nil ==> feq(gvi(g, instance), val)
  ensures [refused] err != nil && known(g.pcpInstanceMetric, instance) ==> gvi(g, instance) === old(gvi(g, instance))
  ensures [accepted] known(g.pcpInstanceMetric, instance) && g.vals[instance].update == nil ==> err == nil
  ensures [others unchanged] others(g.pcpInstanceMetric, instance)
  ensures [invariant] gvok(g)
  modifies g.vals[instance].val, pushed(g.vals[instance].update)

func (g *PCPGaugeVector) MustSet(val float64, instance string)
  props M04 M06
  requires gvok(g)
  panics may
  onpanic [only for a reason] !known(g.pcpInstanceMetric, instance) || g.vals[instance].update != nil
  onpanic known(g.pcpInstanceMetric, instance) ==> gvi(g, instance) === old(gvi(g, instance))
  onpanic gvok(g)
  ensures [set] known(g.pcpInstanceMetric, instance) && feq(gvi(g, instance), val)
  ensures [others unchanged] others(g.pcpInstanceMetric, instance)
  ensures [invariant] gvok(g)
  modifies g.vals[instance].val, pushed(g.vals[instance].update)

func (g *PCPGaugeVector) Inc(inc float64, instance string) (err)
  props M04 M06
  requires gvok(g)
  ensures [unknown] !known(g.pcpInstanceMetric, instance) ==> err != nil
  ensures [adds] err == nil ==> feq(gvi(g, instance), old(gvi(g, instance)) + inc)
  ensures [refused] err != nil && known(g.pcpInstanceMetric, instance) ==> gvi(g, instance) === old(gvi(g, instance))
  ensures [accepted] known(g.pcpInstanceMetric, instance) && g.vals[instance].update == nil ==> err == nil
  ensures [others unchanged] others(g.pcpInstanceMetric, instance)
  ensures [invariant] gvok(g)
  modifies g.vals[instance].val, pushed(g.vals[instance].update)

func (g *PCPGaugeVector) MustInc(inc float64, instance string)
  props M04 M06
  requires gvok(g)
  panics may
  onpanic [only for a reason] !known(g.pcpInstanceMetric, instance) || g.vals[instance].update != nil
  onpanic known(g.pcpInstanceMetric, instance) ==> gvi(g, instance) === old(gvi(g, instance))
  onpanic gvok(g)
  ensures [adds] known(g.pcpInstanceMetric, instance) && feq(gvi(g, instance), old(gvi(g, instance)) + inc)
  ensures [others unchanged] others(g.pcpInstanceMetric, instance)
  ensures [invariant] gvok(g)
  modifies g.vals[instance].val, pushed(g.vals[instance].update)

func (g *PCPGaugeVector) Dec(inc float64, instance string) (err)
  props M04 M06
  requires gvok(g)
  ensures [unknown] !known(g.pcpInstanceMetric, instance) ==> err != nil
  ensures [subtracts] err == nil ==> feq(gvi(g, instance), old(gvi(g, instance)) - inc)
  ensures [refused] err != nil && known(g.pcpInstanceMetric, instance) ==> gvi(g, instance) === old(gvi(g, instance))
  ensures [accepted] known(g.pcpInstanceMetric, instance) && g.vals[instance].update == nil ==> err == nil
  ensures [others unchanged] others(g.pcpInstanceMetric, instance)
  ensures [invariant] gvok(g)
  modifies g.vals[instance].val, pushed(g.vals[instance].update)

func (g *PCPGaugeVector) MustDec(inc float64, instance string)
  props M04 M06
  requires gvok(g)
  panics may
  onpanic [only for a reason] !known(g.pcpInstanceMetric, instance) || g.vals[instance].update != nil
  onpanic known(g.pcpInstanceMetric, instance) ==> gvi(g, instance) === old(gvi(g, instance))
  onpanic gvok(g)
  ensures [subtracts] known(g.pcpInstanceMetric, instance) && feq(gvi(g, instance), old(gvi(g, instance)) - inc)
  ensures [others unchanged] others(g.pcpInstanceMetric, instance)
  ensures [invariant] gvok(g)
  modifies g.vals[instance].val, pushed(g.vals[instance].update)

func (g *PCPGaugeVector) SetAll(val float64)
  props M04 M06
  requires gvok(g)
  panics may
  loopinv gvok(g)
  loopinv forall l string :: known(g.pcpInstanceMetric, l) && visited(l) ==> feq(gvi(g, l), val)
  loopinv forall l string :: known(g.pcpInstanceMetric, l) && !visited(l) ==> gvi(g, l) === old(gvi(g, l))
  onpanic gvok(g)
  ensures [all set] forall l string :: known(g.pcpInstanceMetric, l) ==> feq(gvi(g, l), val)
  ensures [invariant] gvok(g)
  modifies all(instanceValue.val), pushed

func (g *PCPGaugeVector) IncAll(val float64)
  props M04 M06
  requires gvok(g)
  panics may
  loopinv gvok(g)
  loopinv forall l string :: known(g.pcpInstanceMetric, l) && visited(l) ==> feq(gvi(g, l), old(gvi(g, l)) + val)
  loopinv forall l string :: known(g.pcpInstanceMetric, l) && !visited(l) ==> gvi(g, l) === old(gvi(g, l))
  onpanic gvok(g)
  ensures [all increased] forall l string :: known(g.pcpInstanceMetric, l) ==> feq(gvi(g, l), old(gvi(g, l)) + val)
  ensures [invariant] gvok(g)
  modifies all(instanceValue.val), pushed

func (g *PCPGaugeVector) DecAll(val float64)
  props M04 M06
  requires gvok(g)
  panics may
  onpanic gvok(g)
  ensures [all decreased] forall l string :: known(g.pcpInstanceMetric, l) ==> feq(gvi(g, l), old(gvi(g, l)) - val)
  ensures [invariant] gvok(g)
  modifies all(instanceValue.val), pushed

# ---- construction
define shortof(desc []string) string = ite(len(desc) > 0, desc[0], "")
define longof(desc []string) string = ite(len(desc) > 1, desc[1], "")
define descok(desc []string) bool = len(desc) <= 2 && len(shortof(desc)) <= 255 && len(longof(desc)) <= 255
define metaok(n string, desc []string) bool = len(n) > 0 && len(n) <= 255 && descok(desc)
define meta(d *pcpMetricDesc, n string, t MetricType, s MetricSemantics, u MetricUnit, desc []string) bool = d != nil && d.id == fnv1a(n) % 1024 && d.name == n && d.t == t && d.sem == s && d.u === u && d.shortDescription == shortof(desc) && d.longDescription == longof(desc)

func NewPCPSingletonMetric(val interface{}, name string, t MetricType, s MetricSemantics, u MetricUnit, desc []string) (r, err)
  props M01 M02 M10
  ensures [accepted exactly] (err == nil) <==> metaok(name, desc) && compat(t, val)
  ensures [metadata] err == nil ==> meta(r.pcpMetricDesc, name, t, s, u, desc)
  ensures [value] err == nil ==> fresh(r) && sok(r.pcpSingletonMetric) && r.val === resolved(t, val) && r.update == nil
  ensures [nothing on error] err != nil ==> r == nil

func NewPCPCounter(val int64, name string, desc []string) (r, err)
  props M03 M10
  ensures [accepted exactly] (err == nil) <==> metaok(name, desc)
  ensures [metadata] err == nil ==> meta(r.pcpMetricDesc, name, Int64Type, CounterSemantics, boxed(CountUnit, OneUnit), desc)
  ensures [value] err == nil ==> fresh(r) && cok(r) && cv(r) == val && r.update == nil

func NewPCPGauge(val float64, name string, desc []string) (r, err)
  props M04 M10
  ensures [accepted exactly] (err == nil) <==> metaok(name, desc)
  ensures [metadata] err == nil ==> meta(r.pcpMetricDesc, name, DoubleType, InstantSemantics, boxed(CountUnit, OneUnit), desc)
  ensures [value] err == nil ==> fresh(r) && gok(r) && gv(r) === val && r.update == nil

func NewPCPTimer(name string, unit TimeUnit, desc []string) (r, err)
  props M05 M10
  ensures [accepted exactly] (err == nil) <==> metaok(name, desc)
  ensures [metadata] err == nil ==> meta(r.pcpMetricDesc, name, DoubleType, DiscreteSemantics, boxed(TimeUnit, unit), desc)
  ensures [value] err == nil ==> fresh(r) && tok(r) && tv(r) == 0.0 && !r.started && r.update == nil

define instok(instances []string, n int) bool = forall i int :: 0 <= i && i < n ==> len(instances[i]) <= 255
define indomfor(d *PCPInstanceDomain, name string, desc []string) bool = d != nil && d.id == fnv1a(name) % 4194304 && d.name == name && d.shortDescription == shortof(desc) && d.longDescription == longof(desc)
define instfor(d *PCPInstanceDomain, instances []string, n int) bool = (forall k string :: (k in d.instances) <==> (exists i int :: 0 <= i && i < n && instances[i] == k))
define instobj(d *PCPInstanceDomain) bool = (forall k string :: k in d.instances ==> d.instances[k] != nil && d.instances[k].name == k && d.instances[k].id == fnv1a(k)) && (forall k string, l string :: k in d.instances && l in d.instances && k != l ==> d.instances[k] != d.instances[l])

func NewPCPInstanceDomain(name string, instances []string, desc []string) (r, err)
  props M06 M10
  loopinv {i int, m map[string]*pcpInstance} (forall k string :: (k in m) <==> (exists j int :: 0 <= j && j < i && instances[j] == k))
  loopinv {m map[string]*pcpInstance} (forall k string :: k in m ==> m[k] != nil && allocated(m[k]) && m[k].name == k && m[k].id == fnv1a(k))
  loopinv {m map[string]*pcpInstance} (forall k string, l string :: k in m && l in m && k != l ==> m[k] != m[l])
  loopinv {i int} forall j int :: 0 <= j && j < i ==> len(instances[j]) <= 255
  ensures [accepted exactly] (err == nil) <==> len(name) > 0 && descok(desc) && instok(instances, len(instances))
  ensures [metadata] err == nil ==> fresh(r) && indomfor(r, name, desc)
  ensures [instances] err == nil ==> instfor(r, instances, len(instances)) && instobj(r)

define valsfor(vals Instances, indom *PCPInstanceDomain, t MetricType) bool = len(vals) == len(indom.instances) && (forall k string :: k in indom.instances ==> k in vals && compat(t, vals[k]))
define storedvals(m *pcpInstanceMetric, vals Instances) bool = forall k string :: k in m.vals ==> m.vals[k].val === resolved(m.t, vals[k]) && m.vals[k].update == nil

func NewPCPInstanceMetric(vals Instances, name string, indom *PCPInstanceDomain, t MetricType, s MetricSemantics, u MetricUnit, desc []string) (r, err)
  props M01 M06 M10
  requires indom != nil
  loopinv {m map[string]*instanceValue} forall k string :: (k in m) <==> visited(k)
  loopinv {m map[string]*instanceValue} len(m) == nvisited()
  loopinv {m map[string]*instanceValue} forall k string :: k in m ==> m[k] != nil && allocated(m[k]) && m[k].update == nil
  loopinv {m map[string]*instanceValue} forall k string :: k in m ==> m[k].val === resolved(t, vals[k])
  loopinv {m map[string]*instanceValue} forall k string :: visited(k) ==> k in vals && compat(t, vals[k])
  loopinv {m map[string]*instanceValue} forall k string, l string :: k in m && l in m && k != l ==> m[k] != m[l]
  ensures [accepted exactly] (err == nil) <==> metaok(name, desc) && valsfor(vals, indom, t)
  ensures [metadata] err == nil ==> meta(r.pcpMetricDesc, name, t, s, u, desc) && r.indom == indom
  ensures [values] err == nil ==> fresh(r) && iok(r.pcpInstanceMetric) && storedvals(r.pcpInstanceMetric, vals)

lemma (i Instances) Keys() (r)
  props M06 M10
  flags always allocates
  loopinv {s []string} len(s) == nvisited()
  loopinv {s []string} forall k string :: visited(k) ==> (exists j int :: 0 <= j && j < len(s) && s[j] == k)
  loopinv {s []string} forall j int :: 0 <= j && j < len(s) ==> visited(s[j])
  ensures len(r) == len(i)
  ensures forall k string :: k in i ==> (exists j int :: 0 <= j && j < len(r) && r[j] == k)
  ensures forall j int :: 0 <= j && j < len(r) ==> r[j] in i

define shortkeys(values map[string]int64) bool = forall k string :: k in values ==> len(k) <= 255
define shortkeysg(values map[string]float64) bool = forall k string :: k in values ==> len(k) <= 255
define ownindom(m *pcpInstanceMetric, name string) bool = m.indom != nil && m.indom.name == (name + ".indom") && m.indom.id == fnv1a((name + ".indom")) % 4194304 && instobj(m.indom)

func NewPCPCounterVector(values map[string]int64, name string, desc []string) (r, err)
  props M03 M06 M10
  loopinv {vals Instances} forall k string :: (k in vals) <==> visited(k)
  loopinv {vals Instances} forall k string :: k in vals ==> vals[k] === boxed(int64, values[k])
  loopinv {vals Instances} len(vals) == nvisited()
  loopinv {m map[string]*instanceValue} forall k string :: (k in m) <==> visited(k)
  loopinv {m map[string]*instanceValue} forall k string :: k in m ==> m[k] != nil && allocated(m[k]) && m[k].update == nil
  loopinv {m map[string]*instanceValue} len(m) == nvisited()
  loopinv {vals Instances, m map[string]*instanceValue} forall k string :: k in m ==> m[k].val === resolved(Int64Type, vals[k])
  loopinv {vals Instances} forall k string :: visited(k) ==> k in vals && compat(Int64Type, vals[k])
  loopinv {m map[string]*instanceValue} forall k string, l string :: k in m && l in m && k != l ==> m[k] != m[l]
  ensures [accepted exactly] (err == nil) <==> metaok(name, desc) && shortkeys(values)
  ensures [metadata] err == nil ==> meta(r.pcpMetricDesc, name, Int64Type, CounterSemantics, boxed(CountUnit, OneUnit), desc)
  ensures [own domain] err == nil ==> ownindom(r.pcpInstanceMetric, name)
  ensures [instances] err == nil ==> fresh(r) && cvok(r) && (forall k string :: known(r.pcpInstanceMetric, k) <==> (k in values))
  ensures [values] err == nil ==> (forall k string :: k in values ==> cvi(r, k) == values[k] && r.vals[k].update == nil)

func NewPCPGaugeVector(values map[string]float64, name string, desc []string) (r, err)
  props M04 M06 M10
  loopinv {vals Instances} forall k string :: (k in vals) <==> visited(k)
  loopinv {vals Instances} forall k string :: k in vals ==> vals[k] === boxed(float64, values[k])
  loopinv {vals Instances} len(vals) == nvisited()
  loopinv {m map[string]*instanceValue} forall k string :: (k in m) <==> visited(k)
  loopinv {m map[string]*instanceValue} forall k string :: k in m ==> m[k] != nil && allocated(m[k]) && m[k].update == nil
  loopinv {m map[string]*instanceValue} len(m) == nvisited()
  loopinv {vals Instances, m map[string]*instanceValue} forall k string :: k in m ==> m[k].val === resolved(DoubleType, vals[k])
  loopinv {vals Instances} forall k string :: visited(k) ==> k in vals && compat(DoubleType, vals[k])
  loopinv {m map[string]*instanceValue} forall k string, l string :: k in m && l in m && k != l ==> m[k] != m[l]
  ensures [accepted exactly] (err == nil) <==> metaok(name, desc) && shortkeysg(values)
  ensures [metadata] err == nil ==> meta(r.pcpMetricDesc, name, DoubleType, InstantSemantics, boxed(CountUnit, OneUnit), desc)
  ensures [own domain] err == nil ==> ownindom(r.pcpInstanceMetric, name)
  ensures [instances] err == nil ==> fresh(r) && gvok(r) && (forall k string :: known(r.pcpInstanceMetric, k) <==> (k in values))
  ensures [values] err == nil ==> (forall k string :: k in values ==> gvi(r, k) === values[k] && r.vals[k].update == nil)

# ---- what a constructed object reports
func (indom *PCPInstanceDomain) ID() (r)
  props M10
  requires indom != nil
  ensures r == indom.id

func (indom *PCPInstanceDomain) Name() (r)
  props M10
  requires indom != nil
  ensures r == indom.name

func (indom *PCPInstanceDomain) Description() (r)
  props M10
  requires indom != nil
  ensures r == indom.shortDescription + "\n" + indom.longDescription

func (indom *PCPInstanceDomain) Instances() (r)
  props M06 M10
  flags allocates
  requires indom != nil
  loopinv {i int} i == nvisited()
  loopinv {ans []string} forall k string :: visited(k) ==> (exists j int :: 0 <= j && j < nvisited() && ans[j] == k)
  loopinv {ans []string} forall j int :: 0 <= j && j < nvisited() ==> visited(ans[j])
  ensures [one entry per instance] len(r) == len(indom.instances)
  ensures [every instance] forall k string :: k in indom.instances ==> (exists j int :: 0 <= j && j < len(r) && r[j] == k)
  ensures [only instances] forall j int :: 0 <= j && j < len(r) ==> r[j] in indom.instances

func (indom *PCPInstanceDomain) MatchInstances(ins []string) (r)
  props M06 R02
  requires indom != nil
  loopinv {i int, m map[string]bool} (forall k string :: (k in m) <==> (exists j int :: 0 <= j && j < i && ins[j] == k))
  loopinv {i int} forall j int :: 0 <= j && j < i ==> ins[j] in indom.instances
  ensures [same instances] r ==> (forall j int :: 0 <= j && j < len(ins) ==> ins[j] in indom.instances) && (forall k string :: k in indom.instances ==> (exists j int :: 0 <= j && j < len(ins) && ins[j] == k))
  ensures [no false refusal] len(ins) == len(indom.instances) && (forall j int :: 0 <= j && j < len(ins) ==> ins[j] in indom.instances) && (forall k string :: k in indom.instances ==> (exists j int :: 0 <= j && j < len(ins) && ins[j] == k)) ==> r

func (md *pcpMetricDesc) ID() (r)
  props M10
  requires md != nil
  ensures r == md.id

func (md *pcpMetricDesc) Name() (r)
  props M10
  requires md != nil
  ensures r == md.name

func (md *pcpMetricDesc) Semantics() (r)
  props M10
  requires md != nil
  ensures r == md.sem

func (md *pcpMetricDesc) Unit() (r)
  props M10
  requires md != nil
  ensures r === md.u

func (md *pcpMetricDesc) Type() (r)
  props M10
  requires md != nil
  ensures r == md.t

func (md *pcpMetricDesc) ShortDescription() (r)
  props M10
  requires md != nil
  ensures r == md.shortDescription

func (md *pcpMetricDesc) LongDescription() (r)
  props M10
  requires md != nil
  ensures r == md.longDescription

func (md *pcpMetricDesc) Description() (r)
  props M10
  requires md != nil
  ensures r == md.shortDescription + "\n" + md.longDescription

# ---- lock discipline of every exported method (M09)
lemma (m *pcpSingletonMetric) set(val interface{}) (err)
  modifies m.val, pushed(m.update)
  requires sok(m)
  reads m.val, m.update
  flags noframe nopanic
guarded (m *PCPSingletonMetric)
  props M09
  requires m != nil && sok(m.pcpSingletonMetric)
  guard m.mutex : m.val, m.update
guarded (c *PCPCounter)
  props M09
  requires cok(c)
  guard c.mutex : c.val, c.update
guarded (g *PCPGauge)
  props M09
  requires gok(g)
  guard g.mutex : g.val, g.update
guarded (t *PCPTimer)
  props M09
  requires tok(t)
  guard t.mutex : t.val, t.update, t.started, t.since
guarded (m *PCPInstanceMetric)
  props M09
  requires m != nil && iok(m.pcpInstanceMetric)
  guard m.mutex : all(instanceValue.val), all(instanceValue.update)
guarded (c *PCPCounterVector)
  props M09
  requires cvok(c)
  multi SetAll IncAll UpAll
  guard c.mutex : all(instanceValue.val), all(instanceValue.update)
guarded (g *PCPGaugeVector)
  props M09
  requires gvok(g)
  multi SetAll IncAll DecAll
  guard g.mutex : all(instanceValue.val), all(instanceValue.update)
