package speed_test

import (
	"fmt"
	"math"
	"testing"

	"github.com/performancecopilot/speed/v4"
)

func TestReplayCounter(t *testing.T) {
	for it := 0; it < 20000; it++ {
		init := vint64()
		c, err := speed.NewPCPCounter(init, "c")
		if err != nil {
			vfail(t, "NewPCPCounter(%d): %v", init, err)
		}
		cur := init
		hist := fmt.Sprintf("counter %d", init)
		if c.Val() != cur {
			vfail(t, "%s: Val() = %d", hist, c.Val())
		}
		for k := 0; k < 8; k++ {
			v := vint64()
			if vrng.Intn(3) == 0 {
				v = cur + int64(vrng.Intn(5)) - 2
			}
			if vrng.Intn(5) == 0 {
				v = math.MaxInt64 - cur + int64(vrng.Intn(3)) - 1
			}
			var err error
			sum, addok := cur+v, v >= 0 && (cur <= 0 || v <= math.MaxInt64-cur)
			want, ok := cur, false
			switch vrng.Intn(4) {
			case 0:
				hist += fmt.Sprintf("; Set(%d)", v)
				err = c.Set(v)
				want, ok = v, v >= cur
			case 1:
				hist += fmt.Sprintf("; Inc(%d)", v)
				err = c.Inc(v)
				want, ok = sum, addok
			case 2:
				hist += fmt.Sprintf("; MustInc(%d)", v)
				if p := vcatch(func() { c.MustInc(v) }); p != nil {
					err = fmt.Errorf("%v", p)
				}
				want, ok = sum, addok
			case 3:
				hist += "; Up()"
				if p := vcatch(func() { c.Up() }); p != nil {
					err = fmt.Errorf("%v", p)
				}
				want, ok = cur+1, cur != math.MaxInt64
			}
			if (err == nil) != ok {
				vfail(t, "%s: error %v", hist, err)
			}
			if ok {
				cur = want
			}
			if c.Val() != cur {
				vfail(t, "%s: Val() = %d, expected %d", hist, c.Val(), cur)
			}
		}
	}
}

func TestReplayCounterVector(t *testing.T) {
	for it := 0; it < 8000; it++ {
		cur := map[string]int64{}
		n := 1 + vrng.Intn(4)
		for i := 0; i < n; i++ {
			cur[string(rune('a'+i))] = vint64()
		}
		init := map[string]int64{}
		for k, v := range cur {
			init[k] = v
		}
		c, err := speed.NewPCPCounterVector(init, "c")
		if err != nil {
			vfail(t, "NewPCPCounterVector(%v): %v", init, err)
		}
		hist := fmt.Sprintf("vector %v", init)
		check := func() {
			for k, v := range cur {
				if x, err := c.Val(k); err != nil || x != v {
					vfail(t, "%s: Val(%q) = %d, %v; expected %d", hist, k, x, err, v)
				}
			}
			if _, err := c.Val("zz"); err == nil {
				vfail(t, "%s: Val of an unknown instance succeeds", hist)
			}
		}
		check()
		for k := 0; k < 6; k++ {
			i := string(rune('a' + vrng.Intn(n+1)))
			old, known := cur[i]
			v := vint64()
			if vrng.Intn(3) == 0 {
				v = old + int64(vrng.Intn(5)) - 2
			}
			if vrng.Intn(5) == 0 {
				v = math.MaxInt64 - old + int64(vrng.Intn(3)) - 1
			}
			addok := known && v >= 0 && (old <= 0 || v <= math.MaxInt64-old)
			var err error
			want, ok := old, false
			try := func(f func()) {
				if p := vcatch(f); p != nil {
					err = fmt.Errorf("%v", p)
				}
			}
			switch vrng.Intn(8) {
			case 0:
				hist += fmt.Sprintf("; Set(%d, %s)", v, i)
				err = c.Set(v, i)
				want, ok = v, known && v >= old
			case 1:
				hist += fmt.Sprintf("; MustSet(%d, %s)", v, i)
				try(func() { c.MustSet(v, i) })
				want, ok = v, known && v >= old
			case 2:
				hist += fmt.Sprintf("; Inc(%d, %s)", v, i)
				err = c.Inc(v, i)
				want, ok = old+v, addok
				if v == 0 && !known {
					ok = err == nil
				}
			case 3:
				hist += fmt.Sprintf("; MustInc(%d, %s)", v, i)
				try(func() { c.MustInc(v, i) })
				want, ok = old+v, addok
				if v == 0 && !known {
					ok = err == nil
				}
			case 4:
				hist += fmt.Sprintf("; Up(%s)", i)
				try(func() { c.Up(i) })
				want, ok = old+1, known && old != math.MaxInt64
			default:
				// all instances at once: never backwards, and exactly on success
				op := vrng.Intn(3)
				hist += fmt.Sprintf("; %s(%d)", []string{"SetAll", "IncAll", "UpAll"}[op], v)
				try(func() {
					switch op {
					case 0:
						c.SetAll(v)
					case 1:
						c.IncAll(v)
					case 2:
						c.UpAll()
					}
				})
				if op == 2 {
					v = 1
				}
				allok := true
				for _, o := range cur {
					if op == 0 && v < o || op > 0 && (v < 0 || o > 0 && v > math.MaxInt64-o) {
						allok = false
					}
				}
				if allok != (err == nil) {
					vfail(t, "%s: %v", hist, err)
				}
				for k, o := range cur {
					x, _ := c.Val(k)
					if x < o {
						vfail(t, "%s: instance %s went back from %d to %d", hist, k, o, x)
					}
					w := v
					if op > 0 {
						w = o + v
					}
					if err == nil && x != w {
						vfail(t, "%s: instance %s is %d", hist, k, x)
					}
					cur[k] = x
				}
				continue
			}
			if (err == nil) != ok {
				vfail(t, "%s: error %v", hist, err)
			}
			if ok && known {
				cur[i] = want
			}
			check()
		}
	}
}
