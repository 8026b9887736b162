From 8346c95f28ed4b60928655167edd916f6d7713a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 01/17] fix: ByteWriter.Write refuses negative and overflowing
 offsets instead of panicking

---
 bytewriter/bytewriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytewriter/bytewriter.go b/bytewriter/bytewriter.go
index fc62416..cca00d9 100644
--- a/bytewriter/bytewriter.go
+++ b/bytewriter/bytewriter.go
@@ -34,7 +34,7 @@ func (w *ByteWriter) Bytes() []byte { return w.buffer }
 func (w *ByteWriter) Write(data []byte, offset int) (int, error) {
 	l := len(data)
 
-	if offset+l > w.Len() {
+	if offset < 0 || offset > w.Len()-l {
 		return -1, errors.Errorf("cannot write %v bytes at offset %v", l, offset)
 	}
 
-- 
2.43.0


From 9d805c29e6239bbb87efe5590c32d3ac2b76769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 02/17] fix: counters refuse increments that would overflow
 instead of going backwards

---
 metrics.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metrics.go b/metrics.go
index cb55701..b025df2 100644
--- a/metrics.go
+++ b/metrics.go
@@ -725,6 +725,10 @@ func (c *PCPCounter) Inc(val int64) error {
 	}
 
 	v := c.val.(int64)
+	if v+val < v {
+		return errors.Errorf("cannot increment counter by %v, current value is %v and the sum would overflow", val, v)
+	}
+
 	v += val
 	return c.set(v)
 }
@@ -1203,6 +1207,10 @@ func (c *PCPCounterVector) Inc(inc int64, instance string) error {
 		return err
 	}
 
+	if v.(int64)+inc < v.(int64) {
+		return errors.Errorf("cannot increment instance %s by %v, the sum would overflow", instance, inc)
+	}
+
 	return c.setInstance(v.(int64)+inc, instance)
 }
 
-- 
2.43.0


From 4f7c3fb4b66c3b987683b094d563882265cc2373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 03/17] fix: composing a unit replaces the component instead of
 or-ing into it

---
 metrics.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metrics.go b/metrics.go
index b025df2..f5ef838 100644
--- a/metrics.go
+++ b/metrics.go
@@ -169,7 +169,8 @@ func (m *metricUnit) Space(s SpaceUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(s)
+	m.repr &^= 0xF<<28 | 0xF<<16
+	m.repr |= uint32(s) & (0xF << 16)
 	m.repr |= (uint32(dimension) & 0xF) << 28
 	return m
 }
@@ -180,7 +181,8 @@ func (m *metricUnit) Time(t TimeUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(t)
+	m.repr &^= 0xF<<24 | 0xF<<12
+	m.repr |= uint32(t) & (0xF << 12)
 	m.repr |= (uint32(dimension) & 0xF) << 24
 	return m
 }
@@ -191,7 +193,8 @@ func (m *metricUnit) Count(c CountUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(c)
+	m.repr &^= 0xF<<20 | 0xF<<8
+	m.repr |= uint32(c) & (0xF << 8)
 	m.repr |= (uint32(dimension) & 0xF) << 20
 	return m
 }
-- 
2.43.0


From 14c4db9f85c2c2c2a12df9abf10d1cd4dc8cea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 04/17] fix: CountScale shifts the scale back to its own field

---
 metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index f5ef838..e5bd855 100644
--- a/metrics.go
+++ b/metrics.go
@@ -241,7 +241,7 @@ func (m *metricUnit) CountScale() CountUnit {
 		panic("no count scale on unit")
 	}
 
-	return CountUnit(1<<20 | (uint32((m.repr>>8)&0xF))>>8)
+	return CountUnit(1<<20 | (uint32((m.repr>>8)&0xF))<<8)
 }
 
 func (m *metricUnit) String() string {
-- 
2.43.0


From be1689c6a2716f05bfdbd29d5a93af0c1f96a8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 05/17] fix: Histogram High and Low report the right bound

---
 metrics.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics.go b/metrics.go
index e5bd855..2bbbefe 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1456,10 +1456,10 @@ func NewPCPHistogram(name string, low, high int64, sigfigures int, unit MetricUn
 }
 
 // High returns the maximum recordable value.
-func (h *PCPHistogram) High() int64 { return h.h.LowestTrackableValue() }
+func (h *PCPHistogram) High() int64 { return h.h.HighestTrackableValue() }
 
 // Low returns the minimum recordable value.
-func (h *PCPHistogram) Low() int64 { return h.h.HighestTrackableValue() }
+func (h *PCPHistogram) Low() int64 { return h.h.LowestTrackableValue() }
 
 // Max returns the maximum recorded value so far.
 func (h *PCPHistogram) Max() int64 {
-- 
2.43.0


From 9f2631b7828782dfd0cf6654715b174de7e8c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 06/17] fix: read metric values and histogram state only under
 the metric's lock

---
 metrics.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metrics.go b/metrics.go
index 2bbbefe..6330fd8 100644
--- a/metrics.go
+++ b/metrics.go
@@ -646,6 +646,9 @@ func (m *PCPSingletonMetric) MustSet(val interface{}) {
 }
 
 func (m *PCPSingletonMetric) String() string {
+	m.mutex.RLock()
+	defer m.mutex.RUnlock()
+
 	return fmt.Sprintf("Val: %v\n%v", m.val, m.Description())
 }
 
@@ -1570,7 +1573,11 @@ func (h *PCPHistogram) Variance() float64 {
 }
 
 // Percentile returns the value at the passed percentile.
-func (h *PCPHistogram) Percentile(p float64) int64 { return h.h.ValueAtQuantile(p) }
+func (h *PCPHistogram) Percentile(p float64) int64 {
+	h.mutex.RLock()
+	defer h.mutex.RUnlock()
+	return h.h.ValueAtQuantile(p)
+}
 
 // HistogramBucket is a single histogram bucket within a fixed range.
 type HistogramBucket struct {
@@ -1579,6 +1586,9 @@ type HistogramBucket struct {
 
 // Buckets returns a list of histogram buckets.
 func (h *PCPHistogram) Buckets() []*HistogramBucket {
+	h.mutex.RLock()
+	defer h.mutex.RUnlock()
+
 	b := h.h.Distribution()
 	buckets := make([]*HistogramBucket, len(b))
 	for i := 0; i < len(b); i++ {
-- 
2.43.0


From 56d55947bcd9c800342d4103669a70d69e4ff691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 07/17] fix: refuse metric names, descriptions and values that
 do not fit a text slot

---
 metrics.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metrics.go b/metrics.go
index 6330fd8..ad13de0 100644
--- a/metrics.go
+++ b/metrics.go
@@ -82,7 +82,7 @@ func (m MetricType) IsCompatible(val interface{}) bool {
 	case float64:
 		return m.isCompatibleFloat(v)
 	case string:
-		return m == StringType
+		return m == StringType && len(v) < StringLength
 	}
 	return false
 }
@@ -484,7 +484,7 @@ func newpcpMetricDesc(n string, t MetricType, s MetricSemantics, u MetricUnit, d
 		return nil, errors.New("Metric name cannot be empty")
 	}
 
-	if len(n) > StringLength {
+	if len(n) >= StringLength {
 		return nil, errors.New("metric name is too long")
 	}
 
@@ -502,6 +502,10 @@ func newpcpMetricDesc(n string, t MetricType, s MetricSemantics, u MetricUnit, d
 		longdesc = desc[1]
 	}
 
+	if len(shortdesc) >= StringLength || len(longdesc) >= StringLength {
+		return nil, errors.New("metric description is too long")
+	}
+
 	return &pcpMetricDesc{
 		hash(n, PCPMetricItemBitLength),
 		n, t, s, u,
-- 
2.43.0


From dbfcf34a0b65ae1b98ae0d4a5d6aad48d3563096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 08/17] fix: refuse instance names and domain descriptions that
 do not fit a text slot

---
 instance_domain.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instance_domain.go b/instance_domain.go
index fe4b42d..fb3447e 100644
--- a/instance_domain.go
+++ b/instance_domain.go
@@ -52,10 +52,14 @@ func NewPCPInstanceDomain(name string, instances []string, desc ...string) (*PCP
 		longDescription = desc[1]
 	}
 
+	if len(shortDescription) >= StringLength || len(longDescription) >= StringLength {
+		return nil, errors.New("Instance Domain description is too long")
+	}
+
 	imap := make(map[string]*pcpInstance)
 
 	for _, instance := range instances {
-		if len(instance) > StringLength {
+		if len(instance) >= StringLength {
 			return nil, errors.Errorf("instance name %v is too long", instance)
 		}
 
-- 
2.43.0


From 9c647683f16d6216916f30182dfa2cd09390dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:26 +0000
Subject: [PATCH 09/17] fix: MatchInstances accepted an array that repeats an
 instance and lacks another

The array was compared by length and membership only, so ["a", "a"] matched
the domain {"a", "b"}. Count the distinct instances that were matched.
---
 instance_domain.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instance_domain.go b/instance_domain.go
index fb3447e..b2e7b37 100644
--- a/instance_domain.go
+++ b/instance_domain.go
@@ -109,13 +109,17 @@ func (indom *PCPInstanceDomain) MatchInstances(ins []string) bool {
 		return false
 	}
 
+	matched := make(map[string]bool)
+
 	for _, i := range ins {
 		if _, ok := indom.instances[i]; !ok {
 			return false
 		}
+
+		matched[i] = true
 	}
 
-	return true
+	return len(matched) == len(indom.instances)
 }
 
 // Description returns the description for PCPInstanceDomain
-- 
2.43.0


From 981e8a8a162578d7db17afd11cea813eb7a7a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:36 +0000
Subject: [PATCH 10/17] fix: keep the registry's check and insertion under one
 lock, and guard all shared counts

---
 registry.go | 53 +++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/registry.go b/registry.go
index 1d66249..2fc03a8 100644
--- a/registry.go
+++ b/registry.go
@@ -102,12 +102,23 @@ func (r *PCPRegistry) MetricCount() int {
 }
 
 // ValuesCount returns the number of values in the registry
-func (r *PCPRegistry) ValuesCount() int { return r.valueCount }
+func (r *PCPRegistry) ValuesCount() int {
+	r.metricslock.RLock()
+	defer r.metricslock.RUnlock()
+
+	return r.valueCount
+}
 
 // StringCount returns the number of strings in the registry
 func (r *PCPRegistry) StringCount() int {
+	r.indomlock.RLock()
+	defer r.indomlock.RUnlock()
+
+	r.metricslock.RLock()
+	defer r.metricslock.RUnlock()
+
 	if r.version2 {
-		return r.stringcount + r.MetricCount() + r.InstanceCount()
+		return r.stringcount + len(r.metrics) + r.instanceCount
 	}
 
 	return r.stringcount
@@ -133,13 +144,22 @@ func (r *PCPRegistry) HasMetric(name string) bool {
 
 // AddInstanceDomain will add a new instance domain to the current registry
 func (r *PCPRegistry) AddInstanceDomain(indom InstanceDomain) error {
-	if r.HasInstanceDomain(indom.Name()) {
-		return errors.New("InstanceDomain is already defined for the current registry")
-	}
-
 	r.indomlock.Lock()
 	defer r.indomlock.Unlock()
 
+	// the counts and flags below are shared with the metrics
+	r.metricslock.Lock()
+	defer r.metricslock.Unlock()
+
+	return r.addInstanceDomain(indom)
+}
+
+// addInstanceDomain adds an instance domain, both locks have to be held
+func (r *PCPRegistry) addInstanceDomain(indom InstanceDomain) error {
+	if _, present := r.instanceDomains[indom.Name()]; present {
+		return errors.New("InstanceDomain is already defined for the current registry")
+	}
+
 	if r.mapped {
 		return errors.New("Cannot add an indom when a mapping is active")
 	}
@@ -194,27 +214,32 @@ func (r *PCPRegistry) addMetric(m PCPMetric) {
 
 // AddMetric will add a new metric to the current registry
 func (r *PCPRegistry) AddMetric(m Metric) error {
+	r.indomlock.Lock()
+	defer r.indomlock.Unlock()
+
+	r.metricslock.Lock()
+	defer r.metricslock.Unlock()
+
 	if r.mapped {
 		return errors.New("cannot add a metric when a mapping is active")
 	}
 
-	if r.HasMetric(m.Name()) {
+	if _, present := r.metrics[m.Name()]; present {
 		return errors.New("metric is already defined for the current registry")
 	}
 
 	pcpm := m.(PCPMetric)
 
 	// if it is an indom metric
-	if pcpm.Indom() != nil && !r.HasInstanceDomain(pcpm.Indom().Name()) {
-		err := r.AddInstanceDomain(pcpm.Indom())
-		if err != nil {
-			return err
+	if indom := pcpm.Indom(); indom != nil {
+		if _, present := r.instanceDomains[indom.Name()]; !present {
+			err := r.addInstanceDomain(indom)
+			if err != nil {
+				return err
+			}
 		}
 	}
 
-	r.metricslock.Lock()
-	defer r.metricslock.Unlock()
-
 	r.addMetric(pcpm)
 	return nil
 }
-- 
2.43.0


From 4cd616ad6c2d1c7f2c71d9678d57e84c33aa1f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:39 +0000
Subject: [PATCH 11/17] fix: refuse a metric over a different domain of an
 already registered name

---
 registry.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/registry.go b/registry.go
index 2fc03a8..efc9aef 100644
--- a/registry.go
+++ b/registry.go
@@ -232,7 +232,12 @@ func (r *PCPRegistry) AddMetric(m Metric) error {
 
 	// if it is an indom metric
 	if indom := pcpm.Indom(); indom != nil {
-		if _, present := r.instanceDomains[indom.Name()]; !present {
+		registered, present := r.instanceDomains[indom.Name()]
+		if present && registered != indom {
+			return errors.Errorf("a different instance domain under the name %v already exists in the registry", indom.Name())
+		}
+
+		if !present {
 			err := r.addInstanceDomain(indom)
 			if err != nil {
 				return err
-- 
2.43.0


From 5ff3ba68c1ff48da9085b4d54ec552a510da6746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:42 +0000
Subject: [PATCH 12/17] fix: a failed AddMetricByString leaves no instance
 domain behind

---
 registry.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/registry.go b/registry.go
index efc9aef..f30f1c2 100644
--- a/registry.go
+++ b/registry.go
@@ -319,23 +319,23 @@ func (r *PCPRegistry) addInstanceMetricByString(name string, val interface{}, in
 		return nil, errors.New("to define an instance metric, a Instances type is required")
 	}
 
-	var (
-		id  InstanceDomain
-		err error
-	)
+	r.indomlock.RLock()
+	id, present := r.instanceDomains[indom]
+	r.indomlock.RUnlock()
+
+	if !present {
+		var err error
 
-	if !r.HasInstanceDomain(indom) {
-		id, err = r.AddInstanceDomainByName(indom, instances)
+		// it gets registered along with the metric
+		id, err = NewPCPInstanceDomain(indom, instances)
 		if err != nil {
 			return nil, err
 		}
-	} else if r.instanceDomains[indom].MatchInstances(instances) {
-		id = r.instanceDomains[indom]
-	} else {
+	} else if !id.MatchInstances(instances) {
 		return nil, errors.Errorf("a different instance domain under the name %v already exists in the registry", indom)
 	}
 
-	m, err := NewPCPInstanceMetric(mp, name, id.(*PCPInstanceDomain), t, s, u)
+	m, err := NewPCPInstanceMetric(mp, name, id, t, s, u)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5b8c7b881280972f53c2c5ded9279a76abc7e53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:45 +0000
Subject: [PATCH 13/17] fix: refuse metrics of a type that a client cannot
 write

---
 registry.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/registry.go b/registry.go
index f30f1c2..468796f 100644
--- a/registry.go
+++ b/registry.go
@@ -230,6 +230,14 @@ func (r *PCPRegistry) AddMetric(m Metric) error {
 
 	pcpm := m.(PCPMetric)
 
+	// only these types can be written
+	switch m.(type) {
+	case *PCPSingletonMetric, *PCPCounter, *PCPGauge, *PCPTimer:
+	case *PCPInstanceMetric, *PCPCounterVector, *PCPGaugeVector, *PCPHistogram:
+	default:
+		return errors.Errorf("metrics of type %T are not supported", m)
+	}
+
 	// if it is an indom metric
 	if indom := pcpm.Indom(); indom != nil {
 		registered, present := r.instanceDomains[indom.Name()]
-- 
2.43.0


From fc69494c06a84f2ade0859f2595388e9e80e7b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:48 +0000
Subject: [PATCH 14/17] fix: freeze the registry, under its locks, before its
 contents are laid out

---
 client.go   | 11 +++++++----
 registry.go | 21 +++++++++++++++++++++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/client.go b/client.go
index 282efe3..602558f 100644
--- a/client.go
+++ b/client.go
@@ -148,7 +148,7 @@ func (c *PCPClient) SetFlag(flag MMVFlag) error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if c.r.mapped {
+	if c.r.isMapped() {
 		return errors.New("cannot set mmv flag for an active client")
 	}
 
@@ -196,16 +196,19 @@ func (c *PCPClient) Start() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
+	// nothing can be added while the registry is being laid out and written
+	mapped := c.r.setMapped(true)
+
 	l := c.Length()
 
 	writer, err := bytewriter.NewMemoryMappedWriter(c.loc, l)
 	if err != nil {
+		c.r.setMapped(mapped)
 		return errors.Wrap(err, "cannot create MemoryMappedBuffer in client")
 	}
 
 	c.writer = writer
 	c.start()
-	c.r.mapped = true
 	return nil
 }
 
@@ -628,13 +631,13 @@ func (c *PCPClient) Stop() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if !c.r.mapped {
+	if !c.r.isMapped() {
 		return errors.New("trying to stop an already stopped mapping")
 	}
 
 	c.stop()
 
-	c.r.mapped = false
+	c.r.setMapped(false)
 
 	err := c.writer.(*bytewriter.MemoryMappedWriter).Unmap(EraseFileOnStop)
 	c.writer = nil
diff --git a/registry.go b/registry.go
index 468796f..f844818 100644
--- a/registry.go
+++ b/registry.go
@@ -77,6 +77,27 @@ func NewPCPRegistry() *PCPRegistry {
 	}
 }
 
+// setMapped records whether a mapping is active, returning the previous state
+func (r *PCPRegistry) setMapped(mapped bool) bool {
+	r.indomlock.Lock()
+	defer r.indomlock.Unlock()
+
+	r.metricslock.Lock()
+	defer r.metricslock.Unlock()
+
+	previous := r.mapped
+	r.mapped = mapped
+	return previous
+}
+
+// isMapped tells whether a mapping is active
+func (r *PCPRegistry) isMapped() bool {
+	r.metricslock.RLock()
+	defer r.metricslock.RUnlock()
+
+	return r.mapped
+}
+
 // InstanceCount returns the number of instances across all indoms in the registry
 func (r *PCPRegistry) InstanceCount() int {
 	r.indomlock.RLock()
-- 
2.43.0


From c889d2a30d841279cfa205961409bf99e9d0c777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:51 +0000
Subject: [PATCH 15/17] fix: count the table of contents entries of instance
 domains without instances

---
 client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 602558f..ebd07f7 100644
--- a/client.go
+++ b/client.go
@@ -159,8 +159,12 @@ func (c *PCPClient) SetFlag(flag MMVFlag) error {
 func (c *PCPClient) tocCount() int {
 	ans := 2
 
+	if c.r.InstanceDomainCount() > 0 {
+		ans++
+	}
+
 	if c.r.InstanceCount() > 0 {
-		ans += 2
+		ans++
 	}
 
 	if c.r.StringCount() > 0 {
-- 
2.43.0


From af596c09c92c48f21793991d01443d108d99608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:55 +0000
Subject: [PATCH 16/17] fix: refuse client names that are not file names

---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index ebd07f7..1cec9aa 100644
--- a/client.go
+++ b/client.go
@@ -72,6 +72,10 @@ func mmvFileLocation(name string) (string, error) {
 		return "", errors.New("name cannot have path separator")
 	}
 
+	if name == "" || name == "." || name == ".." {
+		return "", errors.Errorf("%q cannot name a file", name)
+	}
+
 	tdir, present := config["PCP_TMP_DIR"]
 	var loc string
 	if present {
-- 
2.43.0


From 4a963971ac56ab93026a9a5d69ed1b75eaef1c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:58 +0000
Subject: [PATCH 17/17] fix: attach and detach the exported slots of metrics
 under their locks

---
 client.go | 61 ++++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 10 deletions(-)

diff --git a/client.go b/client.go
index 1cec9aa..82a3ada 100644
--- a/client.go
+++ b/client.go
@@ -471,16 +471,21 @@ func (c *PCPClient) writeInstance(i *pcpInstance, indomoff int, off int) {
 func (c *PCPClient) writeMetrics() {
 	var wg sync.WaitGroup
 
-	launchSingletonMetric := func(metric *pcpSingletonMetric) {
+	launchSingletonMetric := func(metric *pcpSingletonMetric, l sync.Locker) {
 		go func() {
+			// a concurrent update either precedes the write or reaches the mapping
+			l.Lock()
 			c.writeSingletonMetric(metric)
+			l.Unlock()
 			wg.Done()
 		}()
 	}
 
-	launchInstanceMetric := func(metric *pcpInstanceMetric) {
+	launchInstanceMetric := func(metric *pcpInstanceMetric, l sync.Locker) {
 		go func() {
+			l.Lock()
 			c.writeInstanceMetric(metric)
+			l.Unlock()
 			wg.Done()
 		}()
 	}
@@ -489,21 +494,21 @@ func (c *PCPClient) writeMetrics() {
 	for _, m := range c.r.metrics {
 		switch metric := m.(type) {
 		case *PCPSingletonMetric:
-			launchSingletonMetric(metric.pcpSingletonMetric)
+			launchSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
 		case *PCPCounter:
-			launchSingletonMetric(metric.pcpSingletonMetric)
+			launchSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
 		case *PCPGauge:
-			launchSingletonMetric(metric.pcpSingletonMetric)
+			launchSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
 		case *PCPTimer:
-			launchSingletonMetric(metric.pcpSingletonMetric)
+			launchSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
 		case *PCPInstanceMetric:
-			launchInstanceMetric(metric.pcpInstanceMetric)
+			launchInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
 		case *PCPCounterVector:
-			launchInstanceMetric(metric.pcpInstanceMetric)
+			launchInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
 		case *PCPGaugeVector:
-			launchInstanceMetric(metric.pcpInstanceMetric)
+			launchInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
 		case *PCPHistogram:
-			launchInstanceMetric(metric.pcpInstanceMetric)
+			launchInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
 		}
 	}
 
@@ -657,6 +662,42 @@ func (c *PCPClient) Stop() error {
 }
 
 func (c *PCPClient) stop() {
+	// from here on, updates must not reach the mapping
+	detachSingletonMetric := func(metric *pcpSingletonMetric, l sync.Locker) {
+		l.Lock()
+		metric.update = nil
+		l.Unlock()
+	}
+
+	detachInstanceMetric := func(metric *pcpInstanceMetric, l sync.Locker) {
+		l.Lock()
+		for _, v := range metric.vals {
+			v.update = nil
+		}
+		l.Unlock()
+	}
+
+	for _, m := range c.r.metrics {
+		switch metric := m.(type) {
+		case *PCPSingletonMetric:
+			detachSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
+		case *PCPCounter:
+			detachSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
+		case *PCPGauge:
+			detachSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
+		case *PCPTimer:
+			detachSingletonMetric(metric.pcpSingletonMetric, &metric.mutex)
+		case *PCPInstanceMetric:
+			detachInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
+		case *PCPCounterVector:
+			detachInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
+		case *PCPGaugeVector:
+			detachInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
+		case *PCPHistogram:
+			detachInstanceMetric(metric.pcpInstanceMetric, &metric.mutex)
+		}
+	}
+
 	c.instanceoffsetc, c.indomoffsetc = nil, nil
 	c.metricoffsetc, c.valueoffsetc = nil, nil
 	c.stringoffsetc = nil
-- 
2.43.0

