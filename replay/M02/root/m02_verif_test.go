package speed_test

import (
	"fmt"
	"testing"

	"github.com/performancecopilot/speed/v4"
)

func TestReplaySingleton(t *testing.T) {
	for it := 0; it < 700; it++ {
		ty := vtypes[vrng.Intn(len(vtypes))]
		init := vfit(ty)
		m, err := speed.NewPCPSingletonMetric(init, "m", ty, speed.InstantSemantics, speed.OneUnit)
		if err != nil {
			t.Skip(err)
		}
		cur, _ := vcompat(ty, init)
		hist := fmt.Sprintf("type %d, initial %T %v", ty, init, init)
		if !vsame(cur, m.Val()) {
			vfail(t, "%s: Val() = %T %v", hist, m.Val(), m.Val())
		}
		var get func(string, string) interface{}
		var c *speed.PCPClient
		if it%3 == 0 {
			c, get = vexport(t, "m02", m)
			hist += ", exported"
		}
		for k := 0; k < 12; k++ {
			v := vvalue()
			if vrng.Intn(3) == 0 {
				v = vfit(ty)
			}
			want, ok := vcompat(ty, v)
			must := vrng.Intn(2) == 0
			var err error
			if must {
				hist += fmt.Sprintf("; MustSet(%T %v)", v, v)
				if p := vcatch(func() { m.MustSet(v) }); p != nil {
					err = fmt.Errorf("panic %v", p)
				}
			} else {
				hist += fmt.Sprintf("; Set(%T %v)", v, v)
				if p := vcatch(func() { err = m.Set(v) }); p != nil {
					vfail(t, "%s panicked: %v", hist, p)
				}
			}
			if (err == nil) != ok {
				vfail(t, "%s: error %v", hist, err)
			}
			if err == nil {
				cur = want
			}
			if !vsame(cur, m.Val()) {
				vfail(t, "%s: Val() = %T %v", hist, m.Val(), m.Val())
			}
			if get != nil {
				exp := cur
				if s, is := exp.(string); is {
					s, _ = vcstr([]byte(s))
					exp = s
				}
				if g := get("m", ""); !vsame(exp, g) {
					vfail(t, "%s: exported value %T %v", hist, g, g)
				}
			}
		}
		if c != nil {
			_ = c.Stop()
		}
	}
}

func TestReplayDerived(t *testing.T) {
	for it := 0; it < 200; it++ {
		c, e1 := speed.NewPCPCounter(5, "c")
		g, e2 := speed.NewPCPGauge(1.5, "g")
		tm, e3 := speed.NewPCPTimer("t", speed.MillisecondUnit)
		if e1 != nil || e2 != nil || e3 != nil {
			t.Skip(e1, e2, e3)
		}
		cl, get := vexport(t, "m02", c, g, tm)
		check := func(h string) {
			if x := get("c", ""); !vsame(c.Val(), x) {
				vfail(t, "%s: counter %v exported as %v", h, c.Val(), x)
			}
			if x := get("g", ""); !vsame(g.Val(), x) {
				vfail(t, "%s: gauge %v exported as %v", h, g.Val(), x)
			}
		}
		check("after start")
		for k := 0; k < 6; k++ {
			i, f := vint64(), vfloat64()
			_ = c.Set(i)
			check(fmt.Sprintf("counter Set(%d)", i))
			i = vint64()
			_ = c.Inc(i)
			check(fmt.Sprintf("counter Inc(%d)", i))
			_ = vcatch(func() { c.Up() })
			check("counter Up()")
			_ = vcatch(func() { c.MustInc(3) })
			check("counter MustInc(3)")
			_ = g.Set(f)
			check(fmt.Sprintf("gauge Set(%v)", f))
			_ = g.Inc(f)
			check(fmt.Sprintf("gauge Inc(%v)", f))
			_ = g.Dec(f / 3)
			check(fmt.Sprintf("gauge Dec(%v)", f/3))
		}
		_ = tm.Start()
		v, err := tm.Stop()
		if err != nil {
			vfail(t, "timer Stop: %v", err)
		}
		if x := get("t", ""); !vsame(v, x) {
			vfail(t, "timer Stop returned %v, exported %v", v, x)
		}
		_ = tm.Reset()
		if x := get("t", ""); !vsame(0.0, x) {
			vfail(t, "timer Reset: exported %v", x)
		}
		_ = cl.Stop()
	}
}
