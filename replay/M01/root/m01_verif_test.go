package speed_test

import (
	"testing"

	"github.com/performancecopilot/speed/v4"
)

func TestReplayTypes(t *testing.T) {
	dom, err := speed.NewPCPInstanceDomain("d", []string{"i"})
	if err != nil {
		t.Skip(err)
	}
	for it := 0; it < 60000; it++ {
		ty := vtypes[vrng.Intn(len(vtypes))]
		v := vvalue()
		want, ok := vcompat(ty, v)
		var got bool
		if p := vcatch(func() { got = ty.IsCompatible(v) }); p != nil {
			vfail(t, "MetricType(%d).IsCompatible(%T %v) panicked: %v", ty, v, v, p)
		}
		if got != ok {
			vfail(t, "MetricType(%d).IsCompatible(%T %v) = %v", ty, v, v, got)
		}
		m, err := speed.NewPCPSingletonMetric(v, "m", ty, speed.InstantSemantics, speed.OneUnit)
		if (err == nil) != ok {
			vfail(t, "NewPCPSingletonMetric(%T %v, type %d): error %v", v, v, ty, err)
		}
		if err == nil && !vsame(want, m.Val()) {
			vfail(t, "NewPCPSingletonMetric(%T %v, type %d).Val() = %T %v", v, v, ty, m.Val(), m.Val())
		}
		old := vfit(ty)
		m, err = speed.NewPCPSingletonMetric(old, "m", ty, speed.InstantSemantics, speed.OneUnit)
		if err != nil {
			vfail(t, "NewPCPSingletonMetric(%T %v, type %d): error %v", old, old, ty, err)
		}
		before := m.Val()
		err = m.Set(v)
		if (err == nil) != ok {
			vfail(t, "type %d: Set(%T %v): error %v", ty, v, v, err)
		}
		if err == nil && !vsame(want, m.Val()) {
			vfail(t, "type %d: Val() after Set(%T %v) = %T %v", ty, v, v, m.Val(), m.Val())
		}
		if err != nil && !vsame(before, m.Val()) {
			vfail(t, "type %d: refused Set(%T %v) changed the value to %v", ty, v, v, m.Val())
		}
		im, err := speed.NewPCPInstanceMetric(speed.Instances{"i": v}, "im", dom, ty, speed.InstantSemantics, speed.OneUnit)
		if (err == nil) != ok {
			vfail(t, "NewPCPInstanceMetric(%T %v, type %d): error %v", v, v, ty, err)
		}
		if err == nil {
			if x, _ := im.ValInstance("i"); !vsame(want, x) {
				vfail(t, "NewPCPInstanceMetric(%T %v, type %d): value %T %v", v, v, ty, x, x)
			}
		}
		im, err = speed.NewPCPInstanceMetric(speed.Instances{"i": old}, "im", dom, ty, speed.InstantSemantics, speed.OneUnit)
		if err != nil {
			vfail(t, "NewPCPInstanceMetric(%T %v, type %d): error %v", old, old, ty, err)
		}
		err = im.SetInstance(v, "i")
		if (err == nil) != ok {
			vfail(t, "type %d: SetInstance(%T %v): error %v", ty, v, v, err)
		}
		if x, _ := im.ValInstance("i"); err == nil && !vsame(want, x) {
			vfail(t, "type %d: value after SetInstance(%T %v) = %T %v", ty, v, v, x, x)
		}
	}
}
