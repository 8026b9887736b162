package speed
set field PCPRegistry instanceDomains map[string]*PCPInstanceDomain
set field PCPRegistry metrics map[string]PCPMetric
set field PCPRegistry instanceCount int
set field PCPRegistry valueCount int
set field PCPRegistry stringcount int
set field PCPRegistry mapped bool
set field PCPRegistry version2 bool

# ---- the metrics a registry can hold, seen through their interface
define mdesc(m PCPMetric) *pcpMetricDesc = ite(m is *PCPSingletonMetric, m.(*PCPSingletonMetric).pcpSingletonMetric.pcpMetricDesc, ite(m is *PCPCounter, m.(*PCPCounter).pcpSingletonMetric.pcpMetricDesc, ite(m is *PCPGauge, m.(*PCPGauge).pcpSingletonMetric.pcpMetricDesc, ite(m is *PCPTimer, m.(*PCPTimer).pcpSingletonMetric.pcpMetricDesc, minst(m).pcpMetricDesc))))
define minst(m PCPMetric) *pcpInstanceMetric = ite(m is *PCPInstanceMetric, m.(*PCPInstanceMetric).pcpInstanceMetric, ite(m is *PCPCounterVector, m.(*PCPCounterVector).pcpInstanceMetric, ite(m is *PCPGaugeVector, m.(*PCPGaugeVector).pcpInstanceMetric, m.(*PCPHistogram).pcpInstanceMetric)))
define msing(m PCPMetric) bool = m is *PCPSingletonMetric || m is *PCPCounter || m is *PCPGauge || m is *PCPTimer
define mvec(m PCPMetric) bool = m is *PCPInstanceMetric || m is *PCPCounterVector || m is *PCPGaugeVector || m is *PCPHistogram
define mindom(m PCPMetric) *PCPInstanceDomain = minst(m).indom
define singok(m *pcpSingletonMetric) bool = m != nil && m.pcpMetricDesc != nil
define instmok(m *pcpInstanceMetric) bool = m != nil && m.pcpMetricDesc != nil && m.indom != nil
define mok(m PCPMetric) bool = (m is *PCPSingletonMetric && m.(*PCPSingletonMetric) != nil && singok(m.(*PCPSingletonMetric).pcpSingletonMetric)) || (m is *PCPCounter && m.(*PCPCounter) != nil && singok(m.(*PCPCounter).pcpSingletonMetric)) || (m is *PCPGauge && m.(*PCPGauge) != nil && singok(m.(*PCPGauge).pcpSingletonMetric)) || (m is *PCPTimer && m.(*PCPTimer) != nil && singok(m.(*PCPTimer).pcpSingletonMetric)) || (m is *PCPInstanceMetric && m.(*PCPInstanceMetric) != nil && instmok(minst(m))) || (m is *PCPCounterVector && m.(*PCPCounterVector) != nil && instmok(minst(m))) || (m is *PCPGaugeVector && m.(*PCPGaugeVector) != nil && instmok(minst(m))) || (m is *PCPHistogram && m.(*PCPHistogram) != nil && instmok(minst(m)))

# ---- what a metric or a domain contributes to the counts
define nvals(m PCPMetric) int = ite(msing(m), 1, len(mindom(m).instances))
define b1(b bool) int = ite(b, 1, 0)
define mtexts(m PCPMetric) int = ite(mdesc(m).t == StringType, nvals(m), 0) + b1(mdesc(m).shortDescription != "") + b1(mdesc(m).longDescription != "")
define dtexts(d *PCPInstanceDomain) int = b1(d.shortDescription != "") + b1(d.longDescription != "")
define icount(r *PCPRegistry) int = sum k string in dom(r.instanceDomains) :: len(r.instanceDomains[k].instances)
define vcount(r *PCPRegistry) int = sum k string in dom(r.metrics) :: nvals(r.metrics[k])
define mscount(r *PCPRegistry) int = sum k string in dom(r.metrics) :: mtexts(r.metrics[k])
define dscount(r *PCPRegistry) int = sum k string in dom(r.instanceDomains) :: dtexts(r.instanceDomains[k])

# ---- registry invariant
define domsok(r *PCPRegistry) bool = forall k string :: k in r.instanceDomains ==> r.instanceDomains[k] != nil && r.instanceDomains[k].name == k
define metsok(r *PCPRegistry) bool = forall k string :: k in r.metrics ==> mok(r.metrics[k]) && mdesc(r.metrics[k]).name == k
define owndoms(r *PCPRegistry) bool = forall k string :: k in r.metrics && mvec(r.metrics[k]) ==> (mindom(r.metrics[k]).name in r.instanceDomains) && r.instanceDomains[mindom(r.metrics[k]).name] == mindom(r.metrics[k])
define rok(r *PCPRegistry) bool = r != nil && r.instanceDomains != nil && r.metrics != nil && domsok(r) && metsok(r) && owndoms(r)
define counted(r *PCPRegistry) bool = r.instanceCount == icount(r) && r.valueCount == vcount(r) && r.stringcount == mscount(r) + dscount(r)
define longname(r *PCPRegistry) bool = (exists k string :: k in r.metrics && len(k) > 63) || (exists k string, i string :: k in r.instanceDomains && i in r.instanceDomains[k].instances && len(i) > 63)
define versioned(r *PCPRegistry) bool = r.version2 <==> longname(r)
# a registry fits in memory
define small(r *PCPRegistry) bool = 0 <= icount(r) && icount(r) <= 1099511627776 && 0 <= vcount(r) && vcount(r) <= 1099511627776 && 0 <= mscount(r) && mscount(r) <= 1099511627776 && 0 <= dscount(r) && dscount(r) <= 1099511627776

func NewPCPRegistry() (r)
  props R01 R02 R03
  ensures [empty] fresh(r) && rok(r) && len(r.metrics) == 0 && len(r.instanceDomains) == 0 && !r.mapped
  ensures [counts] counted(r)
  ensures [version] !r.version2 && versioned(r)

func (r *PCPRegistry) InstanceCount() (n)
  props R01
  requires rok(r)
  requires [R01 counts] counted(r)
  ensures [R01 instances] n == icount(r)

func (r *PCPRegistry) InstanceDomainCount() (n)
  props R01
  requires rok(r)
  ensures [R01 domains] n == len(r.instanceDomains)

func (r *PCPRegistry) MetricCount() (n)
  props R01
  requires rok(r)
  ensures [R01 metrics] n == len(r.metrics)

func (r *PCPRegistry) ValuesCount() (n)
  props R01
  requires rok(r)
  requires [R01 counts] counted(r)
  ensures [R01 values] n == vcount(r)

func (r *PCPRegistry) StringCount() (n)
  props R01
  requires rok(r)
  requires [R01 counts] counted(r)
  assumes [R01] small(r)
  ensures [R01 texts] n == mscount(r) + dscount(r) + ite(r.version2, len(r.metrics) + icount(r), 0)

func (r *PCPRegistry) HasMetric(name string) (b)
  props R02
  requires rok(r)
  ensures [R02 presence] b <==> (name in r.metrics)

func (r *PCPRegistry) HasInstanceDomain(name string) (b)
  props R02
  requires rok(r)
  ensures [R02 presence] b <==> (name in r.instanceDomains)

define okadd(r *PCPRegistry, name string) bool = !(name in r.instanceDomains) && !r.mapped

func (r *PCPRegistry) AddInstanceDomain(indom InstanceDomain) (err)
  flags merge
  props R01 R02 R03
  requires rok(r)
  requires indom is *PCPInstanceDomain && indom.(*PCPInstanceDomain) != nil
  requires [R01 counts] counted(r)
  requires [R03 version] versioned(r)
  assumes [R01] small(r)
  let d := indom.(*PCPInstanceDomain)
  loopinv {i int, ins []string} r.version2 <==> (exists j int :: 0 <= j && j < i && len(ins[j]) > 63)
  ensures [admitted exactly] (err == nil) <==> old(okadd(r, d.name))
  ensures [refused inert] err != nil ==> unchangedmap(r.instanceDomains)
  ensures [added] err == nil ==> (d.name in r.instanceDomains) && r.instanceDomains[d.name] == d && unchangedmapexcept(r.instanceDomains, d.name)
  ensures [R01 counts] counted(r)
  ensures [R03 version] versioned(r)
  ensures [R03 never reverts] old(r.version2) ==> r.version2
  ensures [invariant] rok(r)
  modifies contents(r.instanceDomains), r.instanceCount, r.stringcount, r.version2

# admission of a metric: its name is free, no mapping is active, and its domain (if it has one)
# is the registered one, or its domain's name is free
define domfree(r *PCPRegistry, m PCPMetric) bool = mvec(m) ==> (mindom(m).name in r.instanceDomains ==> r.instanceDomains[mindom(m).name] == mindom(m))
define okaddm(r *PCPRegistry, m PCPMetric) bool = !(mdesc(m).name in r.metrics) && !r.mapped && domfree(r, m)
define added(r *PCPRegistry, m PCPMetric) bool = (mdesc(m).name in r.metrics) && r.metrics[mdesc(m).name] === m
define domadded(r *PCPRegistry, m PCPMetric) bool = mvec(m) ==> (mindom(m).name in r.instanceDomains) && r.instanceDomains[mindom(m).name] == mindom(m) && unchangedmapexcept(r.instanceDomains, mindom(m).name)

func (r *PCPRegistry) AddMetric(m Metric) (err)
  flags merge
  props R01 R02 R03
  requires rok(r)
  requires mok(m)
  requires [R01 counts] counted(r)
  requires [R03 version] versioned(r)
  assumes [R01] small(r)
  loopinv {i int, ins []string} r.version2 <==> (exists j int :: 0 <= j && j < i && len(ins[j]) > 63)
  ensures [admitted exactly] (err == nil) <==> old(okaddm(r, m))
  ensures [refused inert] err != nil ==> unchangedmap(r.metrics) && unchangedmap(r.instanceDomains)
  ensures [added] err == nil ==> added(r, m) && unchangedmapexcept(r.metrics, mdesc(m).name)
  ensures [its own domain at most] err == nil ==> domadded(r, m) && (msing(m) ==> unchangedmap(r.instanceDomains))
  ensures [R01 counts] counted(r)
  ensures [R03 version] versioned(r)
  ensures [R03 never reverts] old(r.version2) ==> r.version2
  ensures [invariant] rok(r)
  modifies contents(r.metrics), contents(r.instanceDomains), r.instanceCount, r.valueCount, r.stringcount, r.version2

func (r *PCPRegistry) AddInstanceDomainByName(name string, instances []string) (d, err)
  flags merge
  props R01 R02 R03
  requires rok(r)
  requires [R01 counts] counted(r)
  requires [R03 version] versioned(r)
  assumes [R01] small(r)
  ensures [only when free] err == nil ==> old(okadd(r, name))
  ensures [refused inert] err != nil ==> unchangedmap(r.instanceDomains)
  ensures [added] err == nil ==> d is *PCPInstanceDomain && (name in r.instanceDomains) && r.instanceDomains[name] == d.(*PCPInstanceDomain) && unchangedmapexcept(r.instanceDomains, name)
  ensures [as requested] err == nil ==> fresh(d.(*PCPInstanceDomain)) && d.(*PCPInstanceDomain).name == name && instfor(d.(*PCPInstanceDomain), instances, len(instances))
  ensures [R01 counts] counted(r)
  ensures [R03 version] versioned(r)
  ensures [R03 never reverts] old(r.version2) ==> r.version2
  ensures [invariant] rok(r)
  modifies contents(r.instanceDomains), r.instanceCount, r.stringcount, r.version2

func (r *PCPRegistry) AddMetricByString(str string, val interface{}, t MetricType, s MetricSemantics, u MetricUnit) (m, err)
  flags merge
  props R01 R02 R03
  requires rok(r)
  requires [R01 counts] counted(r)
  requires [R03 version] versioned(r)
  assumes [R01] small(r)
  ensures [only when free] err == nil ==> mok(m) && fresh(ptrof(m)) && !old(r.mapped) && (forall k string :: old(k in r.metrics) ==> k != mdesc(m).name)
  ensures [as requested] err == nil ==> mdesc(m).t == t && mdesc(m).sem == s && mdesc(m).u === u
  ensures [refused inert] err != nil ==> unchangedmap(r.metrics) && unchangedmap(r.instanceDomains)
  ensures [added] err == nil ==> added(r, m) && unchangedmapexcept(r.metrics, mdesc(m).name)
  ensures [its own domain at most] err == nil ==> domadded(r, m) && (msing(m) ==> unchangedmap(r.instanceDomains))
  ensures [R01 counts] counted(r)
  ensures [R03 version] versioned(r)
  ensures [R03 never reverts] old(r.version2) ==> r.version2
  ensures [invariant] rok(r)
  modifies contents(r.metrics), contents(r.instanceDomains), r.instanceCount, r.valueCount, r.stringcount, r.version2

package regexp
fun rematch(re *Regexp, s string) bool
extern (re *Regexp) MatchString(s string) (b)
  ensures b <==> rematch(re, s)
# the registration pattern has eleven groups
extern (re *Regexp) FindStringSubmatch(s string) (r)
  flags allocates
  ensures rematch(re, s) ==> len(r) == 12

package speed
# ---- lock discipline of every exported method (R04)
guarded (r *PCPRegistry)
  props R04
  flags merge
  requires rok(r)
  atomic AddInstanceDomain AddMetric HasInstanceDomain HasMetric
  guard r.indomlock : r.instanceDomains, contents(r.instanceDomains), r.instanceCount
  guard r.metricslock : r.metrics, contents(r.metrics), r.valueCount
  guard r.indomlock, r.metricslock : r.mapped, r.version2, r.stringcount
