package speed_test

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"testing"

	"github.com/performancecopilot/speed/v4"
)

func vfnv(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h ^= uint32(s[i])
		h *= 16777619
	}
	return h
}

func TestReplayConstruction(t *testing.T) {
	sems := []speed.MetricSemantics{speed.NoSemantics, speed.CounterSemantics, speed.InstantSemantics, speed.DiscreteSemantics}
	units := []func() speed.MetricUnit{
		func() speed.MetricUnit { return speed.OneUnit }, func() speed.MetricUnit { return speed.ByteUnit }, func() speed.MetricUnit { return speed.HourUnit },
		func() speed.MetricUnit {
			return speed.NewMetricUnit().Space(speed.KilobyteUnit, 1).Time(speed.SecondUnit, -1)
		},
	}
	for it := 0; it < 6000; it++ {
		name := vstring(300)
		var desc []string
		for i := vrng.Intn(4); i > 0 && (i != 3 || vrng.Intn(3) == 0); i-- {
			d := vstring(300)
			if vrng.Intn(3) != 0 {
				d = vstring(200)
			}
			desc = append(desc, d)
		}
		short, long := "", ""
		ok := len(desc) <= 2
		for _, d := range desc {
			ok = ok && len(d) <= 255
		}
		if len(desc) > 0 {
			short = desc[0]
		}
		if len(desc) > 1 {
			long = desc[1]
		}
		domok := ok && name != ""
		ok = ok && name != "" && len(name) <= 255
		hist := fmt.Sprintf("name %d bytes %q, descriptions %q", len(name), name, desc)
		what := ""
		type desced interface {
			speed.Metric
			ShortDescription() string
			LongDescription() string
		}
		check := func(m desced, err error, ty speed.MetricType, sem speed.MetricSemantics, u speed.MetricUnit) {
			if (err == nil) != ok {
				vfail(t, "%s: %s: error %v", what, hist, err)
			}
			if err != nil {
				return
			}
			if m.Name() != name || m.Type() != ty || m.Semantics() != sem || m.Unit() != u || m.ShortDescription() != short || m.LongDescription() != long || m.Description() != short+"\n"+long {
				vfail(t, "%s: %s: reports name %q type %v semantics %v unit %v descriptions %q %q", what, hist, m.Name(), m.Type(), m.Semantics(), m.Unit(), m.ShortDescription(), m.LongDescription())
			}
			if m.ID() != vfnv(name)&0x3ff {
				vfail(t, "%s: %s: identifier %#x, hash %#x", what, hist, m.ID(), vfnv(name))
			}
		}
		ty, sem, u := vtypes[vrng.Intn(len(vtypes))], sems[vrng.Intn(len(sems))], units[vrng.Intn(len(units))]()
		v := vfit(ty)
		what = "singleton"
		sm, err := speed.NewPCPSingletonMetric(v, name, ty, sem, u, desc...)
		check(sm, err, ty, sem, u)
		what = "counter"
		c, err := speed.NewPCPCounter(3, name, desc...)
		check(c, err, speed.Int64Type, speed.CounterSemantics, speed.OneUnit)
		what = "gauge"
		g, err := speed.NewPCPGauge(3, name, desc...)
		check(g, err, speed.DoubleType, speed.InstantSemantics, speed.OneUnit)
		what = "timer"
		tm, err := speed.NewPCPTimer(name, speed.MinuteUnit, desc...)
		check(tm, err, speed.DoubleType, speed.DiscreteSemantics, speed.MinuteUnit)
		what = "histogram"
		h, err := speed.NewPCPHistogram(name, 0, 100, 2, u, desc...)
		check(h, err, speed.DoubleType, speed.InstantSemantics, u)
		// instances
		var ins []string
		insok := true
		vals, ints, floats := speed.Instances{}, map[string]int64{}, map[string]float64{}
		for i := vrng.Intn(4); i > 0; i-- {
			s := vstring(200)
			if vrng.Intn(6) == 0 {
				s = vstring(300)
			}
			ins = append(ins, s)
			insok = insok && len(s) <= 255
			vals[s], ints[s], floats[s] = v, 1, 2
		}
		dom, err := speed.NewPCPInstanceDomain(name, ins, desc...)
		if (err == nil) != (domok && insok) {
			vfail(t, "domain: %s, instances %q: error %v", hist, ins, err)
		}
		if err == nil {
			if dom.Name() != name || dom.Description() != short+"\n"+long || dom.ID() != vfnv(name)&0x3fffff {
				vfail(t, "domain: %s: reports name %q description %q id %#x", hist, dom.Name(), dom.Description(), dom.ID())
			}
			var want []string
			for k := range vals {
				want = append(want, k)
			}
			got := dom.Instances()
			sort.Strings(want)
			sort.Strings(got)
			if fmt.Sprintf("%q", want) != fmt.Sprintf("%q", got) {
				vfail(t, "domain: %s: instances %q, expected %q", hist, got, want)
			}
			what = "instance metric"
			im, err := speed.NewPCPInstanceMetric(vals, name, dom, ty, sem, u, desc...)
			check(im, err, ty, sem, u)
			if err == nil && im.Indom() != dom {
				vfail(t, "instance metric: %s: another domain", hist)
			}
		}
		ok = ok && insok
		what = fmt.Sprintf("counter vector over %q", ins)
		cv, err := speed.NewPCPCounterVector(ints, name, desc...)
		check(cv, err, speed.Int64Type, speed.CounterSemantics, speed.OneUnit)
		what = fmt.Sprintf("gauge vector over %q", ins)
		gv, err := speed.NewPCPGaugeVector(floats, name, desc...)
		check(gv, err, speed.DoubleType, speed.InstantSemantics, speed.OneUnit)
		if err == nil && (gv.Indom().Name() != name+".indom" || gv.Indom().ID() != vfnv(name+".indom")&0x3fffff) {
			vfail(t, "gauge vector: %s: domain %q id %#x", hist, gv.Indom().Name(), gv.Indom().ID())
		}
	}
}

// the cluster and instance identifiers show only in the exported file
func TestReplayIdentifiers(t *testing.T) {
	for it := 0; it < 60; it++ {
		name := fmt.Sprintf("client%d", vrng.Intn(1<<30))
		ins := fmt.Sprintf("instance%d", vrng.Intn(1<<30))
		cv, err := speed.NewPCPCounterVector(map[string]int64{ins: 1}, "v")
		if err != nil {
			t.Skip(err)
		}
		c, _ := vexport(t, name, cv)
		data, err := os.ReadFile(filepath.Join(os.TempDir(), "mmv", name))
		_ = c.Stop()
		_ = os.Remove(filepath.Join(os.TempDir(), "mmv", name))
		if err != nil || len(data) < 40 {
			t.Skip(err)
		}
		if id := binary.LittleEndian.Uint32(data[36:]); id != vfnv(name)&0xfff {
			vfail(t, "client %q: cluster identifier %#x, hash %#x", name, id, vfnv(name))
		}
		f := vparse(data)
		for _, i := range f.insts {
			if i.id != vfnv(ins) {
				vfail(t, "instance %q: identifier %#x, hash %#x", ins, i.id, vfnv(ins))
			}
		}
	}
}
