package main

import (
	"fmt"
	"math"
)

func F64c(f float64) *Term {
	b := math.Float64bits(f)
	if f != f {
		return mk("const", SF64, "(_ NaN 11 53)", nil)
	}
	return mk("const", SF64, fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&(1<<52-1)), nil)
}
func F32c(f float32) *Term {
	b := math.Float32bits(f)
	if f != f {
		return mk("const", SF32, "(_ NaN 8 24)", nil)
	}
	return mk("const", SF32, fmt.Sprintf("(fp #b%01b #b%08b #b%023b)", b>>31, (b>>23)&0xff, b&(1<<23-1)), nil)
}

// fpAbstract: floating-point operations are uninterpreted (lock-discipline roots)
var fpAbstract bool

func fop(op string, so *Sort, args ...*Term) *Term {
	if fpAbstract {
		n := "abs"
		for _, c := range op {
			if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
				n += string(c)
			}
		}
		return App(n+args[0].sort.name[:1]+fmt.Sprint(len(args))+sortTag(args[0].sort), so, args...)
	}
	return mk(op, so, "", nil, args...)
}
func sortTag(s *Sort) string {
	if s == SF32 {
		return "s"
	}
	return "d"
}

func FEq(a, b *Term) *Term {
	return fop("fp.eq", SBool, order2(a, b)...)
}
func order2(a, b *Term) []*Term {
	if a.id > b.id {
		return []*Term{b, a}
	}
	return []*Term{a, b}
}
func FCmp(op string, a, b *Term) *Term { return fop(op, SBool, a, b) }
func FBin(op string, a, b *Term) *Term {
	if (op == "fp.add" || op == "fp.mul") && a.id > b.id {
		a, b = b, a
	}
	return fop(op+" RNE", a.sort, a, b)
}
func FNeg(a *Term) *Term    { return fop("fp.neg", a.sort, a) }
func F64to32(a *Term) *Term { return fop("(_ to_fp 8 24) RNE", SF32, a) }
func F32to64(a *Term) *Term { return fop("(_ to_fp 11 53) RNE", SF64, a) }
