package speed_test

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/performancecopilot/speed/v4"
)

// a model of a registry, computed from what was admitted
type vdom struct {
	d     *speed.PCPInstanceDomain
	ins   map[string]bool
	texts int
}
type vmet struct {
	m      speed.Metric
	dom    string // "" for a singleton
	typ    speed.MetricType
	texts  int
	values int
}
type vmodel struct {
	doms map[string]*vdom
	mets map[string]*vmet
}

func (m *vmodel) counts() (mets, doms, ins, vals, texts int, long bool) {
	for _, d := range m.doms {
		ins += len(d.ins)
		texts += d.texts
		for i := range d.ins {
			long = long || len(i) > 63
		}
	}
	for n, x := range m.mets {
		vals += x.values
		texts += x.texts
		if x.typ == speed.StringType {
			texts += x.values
		}
		long = long || len(n) > 63
	}
	mets, doms = len(m.mets), len(m.doms)
	if long {
		texts += mets + ins
	}
	return
}

var vlong63 = strings.Repeat("n", 62)

func vname(p string) string {
	switch vrng.Intn(12) {
	case 0:
		return p + vlong63 // 63 bytes
	case 1:
		return p + vlong63 + "x" // 64 bytes
	case 2:
		return p + vlong63 + "xy"
	}
	return p + string(rune('a'+vrng.Intn(6)))
}

func vdesc() ([]string, int) {
	switch vrng.Intn(5) {
	case 0:
		return []string{"short"}, 1
	case 1:
		return []string{"short", "long"}, 2
	case 2:
		return []string{"", "long"}, 1
	case 3:
		return []string{""}, 0
	}
	return nil, 0
}

func vrindom(name string) *vdom {
	var ins []string
	for i := vrng.Intn(4); i >= 0; i-- {
		ins = append(ins, vname("i"))
	}
	if vrng.Intn(10) == 0 {
		ins = nil
	}
	desc, n := vdesc()
	d, err := speed.NewPCPInstanceDomain(name, ins, desc...)
	if err != nil {
		return nil
	}
	v := &vdom{d, map[string]bool{}, n}
	for _, i := range ins {
		v.ins[i] = true
	}
	return v
}

// vmetric makes some metric; over dom when it is not nil
func vrmetric(name string, dom *vdom) (*vmet, *vdom) {
	desc, n := vdesc()
	if dom != nil {
		t := vtypes[vrng.Intn(len(vtypes))]
		vals := speed.Instances{}
		for i := range dom.ins {
			vals[i] = vfit(t)
		}
		m, err := speed.NewPCPInstanceMetric(vals, name, dom.d, t, speed.InstantSemantics, speed.OneUnit, desc...)
		if err != nil {
			return nil, nil
		}
		return &vmet{m, dom.d.Name(), t, n, len(dom.ins)}, dom
	}
	own := func(m speed.Metric, d *speed.PCPInstanceDomain, t speed.MetricType) (*vmet, *vdom) {
		x := &vdom{d, map[string]bool{}, 0}
		for _, i := range d.Instances() {
			x.ins[i] = true
		}
		return &vmet{m, d.Name(), t, n, len(x.ins)}, x
	}
	switch vrng.Intn(7) {
	case 0:
		m, err := speed.NewPCPCounter(1, name, desc...)
		if err == nil {
			return &vmet{m, "", speed.Int64Type, n, 1}, nil
		}
	case 1:
		m, err := speed.NewPCPGauge(1, name, desc...)
		if err == nil {
			return &vmet{m, "", speed.DoubleType, n, 1}, nil
		}
	case 2:
		m, err := speed.NewPCPTimer(name, speed.SecondUnit, desc...)
		if err == nil {
			return &vmet{m, "", speed.DoubleType, n, 1}, nil
		}
	case 3:
		m, err := speed.NewPCPCounterVector(map[string]int64{vname("i"): 1, "z": 2}, name, desc...)
		if err == nil {
			return own(m, m.Indom(), speed.Int64Type)
		}
	case 4:
		m, err := speed.NewPCPGaugeVector(map[string]float64{vname("i"): 1}, name, desc...)
		if err == nil {
			return own(m, m.Indom(), speed.DoubleType)
		}
	case 5:
		m, err := speed.NewPCPHistogram(name, 0, 100, 3, speed.OneUnit, desc...)
		if err == nil {
			return own(m, m.Indom(), speed.DoubleType)
		}
	}
	t := vtypes[vrng.Intn(len(vtypes))]
	m, err := speed.NewPCPSingletonMetric(vfit(t), name, t, speed.InstantSemantics, speed.OneUnit, desc...)
	if err != nil {
		return nil, nil
	}
	return &vmet{m, "", t, n, 1}, nil
}

func vcheckreg(t *testing.T, r *speed.PCPRegistry, m *vmodel, hist []string) {
	t.Helper()
	mets, doms, ins, vals, texts, _ := m.counts()
	got := fmt.Sprintf("metrics %d domains %d instances %d values %d texts %d", r.MetricCount(), r.InstanceDomainCount(), r.InstanceCount(), r.ValuesCount(), r.StringCount())
	want := fmt.Sprintf("metrics %d domains %d instances %d values %d texts %d", mets, doms, ins, vals, texts)
	if got != want {
		vfail(t, "after %s: the registry reports %s, its contents are %s", strings.Join(hist, "; "), got, want)
	}
	for _, n := range []string{"ma", "mb", "mc", "md", "me", "mf", "m" + vlong63, "m" + vlong63 + "x"} {
		if _, ok := m.mets[n]; ok != r.HasMetric(n) {
			vfail(t, "after %s: HasMetric(%q) = %v", strings.Join(hist, "; "), n, !ok)
		}
	}
	for _, n := range []string{"da", "db", "dc", "dd", "de", "df"} {
		if _, ok := m.doms[n]; ok != r.HasInstanceDomain(n) {
			vfail(t, "after %s: HasInstanceDomain(%q) = %v", strings.Join(hist, "; "), n, !ok)
		}
	}
}

func TestReplayRegistry(t *testing.T) {
	for it := 0; it < 3000; it++ {
		r := speed.NewPCPRegistry()
		m := &vmodel{map[string]*vdom{}, map[string]*vmet{}}
		var c *speed.PCPClient
		active := false
		if it%3 == 0 {
			c, _ = speed.NewPCPClientWithRegistry("verifreg", r)
		}
		var hist []string
		var loose []*vdom
		for k := 3 + vrng.Intn(10); k > 0; k-- {
			var err error
			var p interface{}
			step := ""
			expect := true
			commit := func() {}
			switch op := vrng.Intn(12); {
			case op < 3:
				d := vrindom(vname("d"))
				if d == nil {
					continue
				}
				if len(loose) > 0 && vrng.Intn(4) == 0 {
					d = loose[vrng.Intn(len(loose))]
				}
				loose = append(loose, d)
				step = fmt.Sprintf("AddInstanceDomain(%.20s, %d instances)", d.d.Name(), len(d.ins))
				expect = m.doms[d.d.Name()] == nil && !active
				commit = func() { m.doms[d.d.Name()] = d }
				p = vcatch(func() { err = r.AddInstanceDomain(d.d) })
			case op < 4:
				n, i := vname("d"), vname("i")
				var d speed.InstanceDomain
				step = fmt.Sprintf("AddInstanceDomainByName(%.20s, %.20s)", n, i)
				expect = m.doms[n] == nil && !active
				p = vcatch(func() { d, err = r.AddInstanceDomainByName(n, []string{i, "z"}) })
				commit = func() { m.doms[n] = &vdom{d.(*speed.PCPInstanceDomain), map[string]bool{i: true, "z": true}, 0} }
			case op < 10:
				var over *vdom
				if vrng.Intn(2) == 0 {
					if len(loose) > 0 && vrng.Intn(2) == 0 {
						over = loose[vrng.Intn(len(loose))]
					} else {
						over = vrindom(vname("d"))
						if over != nil {
							loose = append(loose, over)
						}
					}
				}
				x, d := vrmetric(vname("m"), over)
				if x == nil {
					continue
				}
				step = fmt.Sprintf("AddMetric(%.20s over %.20s, type %d, %d values, %d texts)", x.m.Name(), x.dom, x.typ, x.values, x.texts)
				expect = m.mets[x.m.Name()] == nil && !active
				if d != nil && m.doms[x.dom] != nil && m.doms[x.dom].d != d.d {
					expect = false
				}
				commit = func() {
					m.mets[x.m.Name()] = x
					if d != nil && m.doms[x.dom] == nil {
						m.doms[x.dom] = d
					}
				}
				p = vcatch(func() { err = r.AddMetric(x.m) })
			case op < 11:
				n := "m" + string(rune('a'+vrng.Intn(6)))
				if vrng.Intn(2) == 0 {
					val := vfit(speed.Int64Type)
					if vrng.Intn(4) == 0 {
						val = "bad"
					}
					step = fmt.Sprintf("AddMetricByString(%s, %v)", n, val)
					_, fits := vcompat(speed.Int64Type, val)
					expect = fits && m.mets[n] == nil && !active
					commit = func() { m.mets[n] = &vmet{nil, "", speed.Int64Type, 0, 1} }
					p = vcatch(func() { _, err = r.AddMetricByString(n, val, speed.Int64Type, speed.InstantSemantics, speed.OneUnit) })
					break
				}
				dn := "d" + string(rune('a'+vrng.Intn(6)))
				ins := []string{"p", "q"}[:1+vrng.Intn(2)]
				vals := speed.Instances{}
				for _, i := range ins {
					vals[i] = 1
				}
				bad := vrng.Intn(4) == 0
				if bad {
					vals["p"] = "bad"
				}
				str := dn + "[" + strings.Join(ins, ",") + "]." + n
				n = dn + "." + n
				step = fmt.Sprintf("AddMetricByString(%s, %v)", str, vals)
				expect = !bad && m.mets[n] == nil && !active
				if d := m.doms[dn]; d != nil {
					have := fmt.Sprint(vkeys(d.ins))
					expect = expect && have == fmt.Sprint(ins)
				}
				commit = func() {
					m.mets[n] = &vmet{nil, dn, speed.Int64Type, 0, len(ins)}
					if m.doms[dn] == nil {
						s := map[string]bool{}
						for _, i := range ins {
							s[i] = true
						}
						m.doms[dn] = &vdom{nil, s, 0}
					}
				}
				p = vcatch(func() { _, err = r.AddMetricByString(str, vals, speed.Int64Type, speed.InstantSemantics, speed.OneUnit) })
				// a domain created by name is known only to the registry
				if m.doms[dn] == nil && err == nil && p == nil && expect {
					k = 1
				}
			default:
				if c == nil {
					continue
				}
				if active {
					step = "Stop"
					p = vcatch(func() { err = c.Stop() })
				} else {
					step = "Start"
					p = vcatch(func() { err = c.Start() })
					if p == nil && err == nil {
						_, _, _, _, _, long := m.counts()
						v := 1
						if long {
							v = 2
						}
						if f, e := vread("verifreg"); e == nil && int(f.version) != v {
							vfail(t, "after %s; Start: the exported file has format version %d, expected %d", strings.Join(hist, "; "), f.version, v)
						}
					}
				}
				if p != nil || err != nil {
					k = 1
					continue
				}
				commit = func() { active = !active }
			}
			hist = append(hist, step)
			if p != nil {
				vfail(t, "%s: panic %v", strings.Join(hist, "; "), p)
			}
			if (err == nil) != expect {
				vfail(t, "%s: the last step returned error %v, it should %s", strings.Join(hist, "; "), err, map[bool]string{true: "succeed", false: "be refused"}[expect])
			}
			if err == nil {
				commit()
			}
			vcheckreg(t, r, m, hist)
		}
		if active {
			vcatch(func() { c.Stop() })
		}
	}
}

func vkeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
