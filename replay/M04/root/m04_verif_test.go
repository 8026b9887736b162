package speed_test

import (
	"fmt"
	"testing"

	"github.com/performancecopilot/speed/v4"
)

func TestReplayGauge(t *testing.T) {
	for it := 0; it < 20000; it++ {
		cur := vfloat64()
		g, err := speed.NewPCPGauge(cur, "g")
		if err != nil {
			vfail(t, "NewPCPGauge(%v): %v", cur, err)
		}
		hist := fmt.Sprintf("gauge %v", cur)
		for k := 0; k < 6; k++ {
			if !vsame(cur, g.Val()) {
				vfail(t, "%s: Val() = %v, expected %v", hist, g.Val(), cur)
			}
			v := vfloat64()
			var err error
			p := vcatch(func() {
				switch vrng.Intn(6) {
				case 0:
					hist += fmt.Sprintf("; Set(%v)", v)
					err = g.Set(v)
					cur = v
				case 1:
					hist += fmt.Sprintf("; MustSet(%v)", v)
					g.MustSet(v)
					cur = v
				case 2:
					hist += fmt.Sprintf("; Inc(%v)", v)
					err = g.Inc(v)
					cur += v
				case 3:
					hist += fmt.Sprintf("; MustInc(%v)", v)
					g.MustInc(v)
					cur += v
				case 4:
					hist += fmt.Sprintf("; Dec(%v)", v)
					err = g.Dec(v)
					cur -= v
				case 5:
					hist += fmt.Sprintf("; MustDec(%v)", v)
					g.MustDec(v)
					cur -= v
				}
			})
			if err != nil || p != nil {
				vfail(t, "%s: %v %v", hist, err, p)
			}
		}
		if !vsame(cur, g.Val()) {
			vfail(t, "%s: Val() = %v, expected %v", hist, g.Val(), cur)
		}
	}
}

func TestReplayGaugeVector(t *testing.T) {
	for it := 0; it < 8000; it++ {
		cur := map[string]float64{}
		init := map[string]float64{}
		n := 1 + vrng.Intn(4)
		for i := 0; i < n; i++ {
			k := string(rune('a' + i))
			cur[k] = vfloat64()
			init[k] = cur[k]
		}
		g, err := speed.NewPCPGaugeVector(init, "g")
		if err != nil {
			vfail(t, "NewPCPGaugeVector(%v): %v", init, err)
		}
		hist := fmt.Sprintf("vector %v", init)
		check := func() {
			for k, v := range cur {
				if x, err := g.Val(k); err != nil || !vsame(v, x) {
					vfail(t, "%s: Val(%q) = %v, %v; expected %v", hist, k, x, err, v)
				}
			}
			if _, err := g.Val("zz"); err == nil {
				vfail(t, "%s: Val of an unknown instance succeeds", hist)
			}
		}
		check()
		for k := 0; k < 6; k++ {
			i := string(rune('a' + vrng.Intn(n+1)))
			old, known := cur[i]
			v := vfloat64()
			var err error
			want := old
			try := func(f func()) {
				if p := vcatch(f); p != nil {
					err = fmt.Errorf("%v", p)
				}
			}
			all := func(f func(float64) float64) {
				for k, o := range cur {
					cur[k] = f(o)
				}
				i, known = "", false
			}
			op := vrng.Intn(9)
			switch op {
			case 0:
				hist += fmt.Sprintf("; Set(%v, %s)", v, i)
				err = g.Set(v, i)
				want = v
			case 1:
				hist += fmt.Sprintf("; MustSet(%v, %s)", v, i)
				try(func() { g.MustSet(v, i) })
				want = v
			case 2:
				hist += fmt.Sprintf("; Inc(%v, %s)", v, i)
				err = g.Inc(v, i)
				want = old + v
			case 3:
				hist += fmt.Sprintf("; MustInc(%v, %s)", v, i)
				try(func() { g.MustInc(v, i) })
				want = old + v
			case 4:
				hist += fmt.Sprintf("; Dec(%v, %s)", v, i)
				err = g.Dec(v, i)
				want = old - v
			case 5:
				hist += fmt.Sprintf("; MustDec(%v, %s)", v, i)
				try(func() { g.MustDec(v, i) })
				want = old - v
			case 6:
				hist += fmt.Sprintf("; SetAll(%v)", v)
				try(func() { g.SetAll(v) })
				all(func(float64) float64 { return v })
			case 7:
				hist += fmt.Sprintf("; IncAll(%v)", v)
				try(func() { g.IncAll(v) })
				all(func(o float64) float64 { return o + v })
			case 8:
				hist += fmt.Sprintf("; DecAll(%v)", v)
				try(func() { g.DecAll(v) })
				all(func(o float64) float64 { return o - v })
			}
			if (err == nil) != (known || op >= 6) {
				vfail(t, "%s: error %v", hist, err)
			}
			if known {
				cur[i] = want
			}
			check()
		}
	}
}
