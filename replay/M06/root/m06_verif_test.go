package speed_test

import (
	"fmt"
	"sort"
	"testing"

	"github.com/performancecopilot/speed/v4"
)

func TestReplayInstances(t *testing.T) {
	for it := 0; it < 4000; it++ {
		ty := vtypes[vrng.Intn(len(vtypes))]
		n := vrng.Intn(5)
		var names []string
		for i := 0; i < n; i++ {
			names = append(names, string(rune('a'+i)))
		}
		args := append([]string(nil), names...)
		if n > 0 && vrng.Intn(3) == 0 {
			args = append(args, names[vrng.Intn(n)])
		}
		vrng.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
		dom, err := speed.NewPCPInstanceDomain("d", args)
		if err != nil {
			vfail(t, "NewPCPInstanceDomain(%q): %v", args, err)
		}
		got := dom.Instances()
		sort.Strings(got)
		if fmt.Sprint(got) != fmt.Sprint(names) || dom.InstanceCount() != n {
			vfail(t, "domain of %q: instances %q, count %d", args, got, dom.InstanceCount())
		}
		for i := 0; i < 6; i++ {
			k := string(rune('a' + i))
			if dom.HasInstance(k) != (i < n) {
				vfail(t, "domain of %q: HasInstance(%q) = %v", args, k, i >= n)
			}
		}
		// other sets of names
		var probe []string
		for i := vrng.Intn(n + 2); i > 0; i-- {
			probe = append(probe, string(rune('a'+vrng.Intn(n+1))))
		}
		set := map[string]bool{}
		all := true
		for _, p := range probe {
			set[p] = true
			all = all && dom.HasInstance(p)
		}
		same := all && len(set) == n
		if m := dom.MatchInstances(probe); m && !same || !m && same && len(probe) == n {
			vfail(t, "domain of %q: MatchInstances(%q) = %v", args, probe, m)
		}
		vals := speed.Instances{}
		cur := map[string]interface{}{}
		ok := true
		for _, k := range names {
			v := vfit(ty)
			if vrng.Intn(12) == 0 {
				v = vvalue()
			}
			if vrng.Intn(15) == 0 {
				k = "x" + k
			}
			vals[k] = v
			w, c := vcompat(ty, v)
			ok = ok && c && dom.HasInstance(k)
			cur[k] = w
		}
		if vrng.Intn(15) == 0 {
			vals["extra"] = vfit(ty)
			ok = false
		}
		m, err := speed.NewPCPInstanceMetric(vals, "m", dom, ty, speed.InstantSemantics, speed.OneUnit)
		if (err == nil) != ok {
			vfail(t, "NewPCPInstanceMetric(%v) of type %d over %q: error %v", vals, ty, names, err)
		}
		if err != nil {
			continue
		}
		hist := fmt.Sprintf("metric of type %d, %v", ty, vals)
		var get func(string, string) interface{}
		var c *speed.PCPClient
		if it%7 == 0 && n > 0 {
			c, get = vexport(t, "m06", m)
			hist += ", exported"
		}
		check := func() {
			for k, v := range cur {
				if x, err := m.ValInstance(k); err != nil || !vsame(v, x) {
					vfail(t, "%s: ValInstance(%q) = %T %v, %v; expected %T %v", hist, k, x, x, err, v, v)
				}
				if get != nil {
					exp := v
					if s, is := exp.(string); is {
						s, _ = vcstr([]byte(s))
						exp = s
					}
					if x := get("m", k); !vsame(exp, x) {
						vfail(t, "%s: exported %q = %T %v, expected %T %v", hist, k, x, x, v, v)
					}
				}
			}
			if x, err := m.ValInstance("zz"); err == nil {
				vfail(t, "%s: ValInstance of an unknown instance = %v", hist, x)
			}
		}
		check()
		for k := 0; k < 6; k++ {
			i := string(rune('a' + vrng.Intn(n+1)))
			v := vfit(ty)
			if vrng.Intn(4) == 0 {
				v = vvalue()
			}
			w, ok := vcompat(ty, v)
			ok = ok && dom.HasInstance(i)
			var err error
			if vrng.Intn(2) == 0 {
				hist += fmt.Sprintf("; SetInstance(%T %v, %s)", v, v, i)
				if p := vcatch(func() { err = m.SetInstance(v, i) }); p != nil {
					vfail(t, "%s panicked: %v", hist, p)
				}
			} else {
				hist += fmt.Sprintf("; MustSetInstance(%T %v, %s)", v, v, i)
				if p := vcatch(func() { m.MustSetInstance(v, i) }); p != nil {
					err = fmt.Errorf("%v", p)
				}
			}
			if (err == nil) != ok {
				vfail(t, "%s: error %v", hist, err)
			}
			if ok {
				cur[i] = w
			}
			check()
		}
		if c != nil {
			_ = c.Stop()
		}
	}
}

func TestReplayVectors(t *testing.T) {
	for it := 0; it < 1500; it++ {
		n := vrng.Intn(4)
		ints, floats := map[string]int64{}, map[string]float64{}
		for i := 0; i < n; i++ {
			k := string(rune('a' + i))
			ints[k], floats[k] = vint64(), vfloat64()
		}
		c, e1 := speed.NewPCPCounterVector(ints, "c")
		g, e2 := speed.NewPCPGaugeVector(floats, "g")
		if e1 != nil || e2 != nil {
			vfail(t, "vectors of %v, %v: %v, %v", ints, floats, e1, e2)
		}
		hist := fmt.Sprintf("vectors of %v, %v", ints, floats)
		if len(c.Instances()) != n || len(g.Instances()) != n || c.Indom().InstanceCount() != n {
			vfail(t, "%s: instances %v, %v", hist, c.Instances(), g.Instances())
		}
		for k := 0; k < 5; k++ {
			i := string(rune('a' + vrng.Intn(n+1)))
			_, known := ints[i]
			iv, fv := vint64(), vfloat64()
			hist += fmt.Sprintf("; Set(%d | %v, %s)", iv, fv, i)
			e1, e2 := c.Set(iv, i), g.Set(fv, i)
			if !known && (e1 == nil || e2 == nil) || known && e2 != nil {
				vfail(t, "%s: errors %v, %v", hist, e1, e2)
			}
			if e1 == nil {
				ints[i] = iv
			}
			if e2 == nil {
				floats[i] = fv
			}
			for k := range ints {
				a, e1 := c.Val(k)
				b, e2 := g.Val(k)
				if e1 != nil || e2 != nil || a != ints[k] || !vsame(floats[k], b) {
					vfail(t, "%s: instance %s holds %v, %v (%v, %v)", hist, k, a, b, e1, e2)
				}
			}
		}
	}
}
