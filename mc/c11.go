package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"

	g "github.com/couchbaselabs/gojsonsm"
)

var unaryFns = []string{g.MathFuncAbs, g.MathFuncCeil, g.MathFuncFloor, g.MathFuncRound, g.MathFuncNeg, g.MathFuncAcos, g.MathFuncAsin, g.MathFuncAtan, g.MathFuncCos, g.MathFuncSin, g.MathFuncTan, g.MathFuncSqrt, g.MathFuncExp, g.MathFuncLn, g.MathFuncLog, g.MathFuncDegrees, g.MathFuncRadians}
var binaryFns = []string{g.MathFuncAdd, g.MathFuncSub, g.MathFuncMul, g.MathFuncDiv, g.MathFuncMod, g.MathFuncPow, g.MathFuncAtan2}

func approxFn(name string) bool {
	_, a := f1[name]
	_, b := f2[name]
	return a || b
}

// the result is compared with z of the document
type fnProbe struct {
	name       string
	eq, lt, gt *compiled
	ne, le, ge *compiled
	scaled     *compiled // 1e10 times the result, with z and w around it
	between    *compiled // w < result < z
	x, y       g.Expression
	approx     bool
}

func probe(name string, e g.Expression, approx bool) *fnProbe {
	z, w := fld("z"), fld("w")
	p := &fnProbe{name: name, approx: approx,
		eq: compile(eq(e, z)), lt: compile(lt(e, z)), gt: compile(gt(e, z)),
		ne: compile(ne(e, z)), le: compile(le(z, e)), ge: compile(ge(z, e)),
		between: compile(and(gt(e, w), lt(e, z)))}
	if approx {
		s := fn(g.MathFuncMul, e, cst(1e10))
		p.scaled = compile(and(gt(s, w), lt(z, s)))
		p.scaled = compile(and(gt(s, w), lt(s, z)))
	}
	return p
}

func fl(f float64) string { return strconv.FormatFloat(f, 'e', -1, 64) }

// ask matches members (text) plus z, w.
func (p *fnProbe) ask(c *Ctx, cm *compiled, members, z, w string) outcome {
	cm.m.Reset()
	c.Trans(1)
	if members != "" {
		members += ","
	}
	return cm.run([]byte("{"+members+`"z":`+z+`,"w":`+w+"}"), 1)
}

// expect checks that the function's result on these members is r.
func (p *fnProbe) expect(c *Ctx, members string, r *Val) string {
	c.State(p.name, members)
	is := func(cm *compiled, what, z, w string, want bool) string {
		o := p.ask(c, cm, members, z, w)
		if o.err || o.match != want || o.each != map[bool]string{true: "1", false: "0"}[want] {
			return fmt.Sprintf("%s with {%s}: result should be %s, but %s (z=%s w=%s) gives %v", p.name, members, r, what, z, w, o)
		}
		return ""
	}
	all := func(z string, c int) string {
		for _, q := range []struct {
			cm   *compiled
			what string
			want bool
		}{{p.eq, "result=z", c == 0}, {p.lt, "result<z", c < 0}, {p.gt, "result>z", c > 0}, {p.ne, "result!=z", c != 0}, {p.le, "z<=result", c >= 0}, {p.ge, "z>=result", c <= 0}} {
			if m := is(q.cm, q.what, z, "0", q.want); m != "" {
				return m
			}
		}
		return ""
	}
	switch r.K {
	case KMissing:
		for _, cm := range []*compiled{p.eq, p.lt, p.gt, p.le, p.ge} {
			if m := is(cm, "a comparison", "0", "0", false); m != "" {
				return m
			}
		}
		return is(p.ne, "result!=z", "0", "0", true)
	case KInvalid:
		for _, z := range []string{"0", "-1e300", `""`, "false", "[]"} {
			if m := is(p.eq, "result=z", z, "0", false); m != "" {
				return m
			}
			if m := is(p.ne, "result!=z", z, "0", true); m != "" {
				return m
			}
			if m := is(p.gt, "result>z", z, "0", false); m != "" {
				return m
			}
		}
		return is(p.eq, "result=z", "null", "0", false)
	}
	if r.NC == NInt {
		one := big.NewInt(1)
		if m := all(r.I.String(), 0); m != "" {
			return m
		}
		up, down := new(big.Int).Add(r.I, one), new(big.Int).Sub(r.I, one)
		if fitsI(up) || fitsU(up) {
			if m := all(up.String(), -1); m != "" {
				return m
			}
		}
		if fitsI(down) || fitsU(down) {
			if m := all(down.String(), 1); m != "" {
				return m
			}
		}
		return ""
	}
	f := r.F
	switch {
	case math.IsNaN(f):
		// not comparable; it must only not fail
		if o := p.ask(c, p.eq, members, "1", "0"); o.err {
			return "reports an error"
		}
		return ""
	case math.IsInf(f, 1):
		return is(p.gt, "result>z", "1.797e308", "0", true)
	case math.IsInf(f, -1):
		return is(p.lt, "result<z", "-1.797e308", "0", true)
	}
	if !p.approx {
		if m := all(fl(f), 0); m != "" {
			return m
		}
		d := math.Max(math.Abs(f)*1e-12, 1e-6)
		if math.Abs(f) < 1e300 {
			if m := all(fl(f+d), -1); m != "" {
				return m
			}
			return all(fl(f-d), 1)
		}
		return ""
	}
	d := math.Abs(f)*1e-11 + 3e-7
	if math.Abs(f) < 1e300 {
		if m := is(p.between, "w<result<z", fl(f+d), fl(f-d), true); m != "" {
			return m
		}
	}
	if math.Abs(f) < 1e-3 {
		s := f * 1e10
		d = math.Abs(s)*1e-6 + 3e-6
		return is(p.scaled, "w<result*1e10<z", fl(s+d), fl(s-d), true)
	}
	return ""
}

func c11Numbers(thorough bool) []*Val {
	var out []*Val
	for _, l := range []string{"0", "1", "-1", "2", "-2", "3", "-3", "4", "5", "-5", "7", "10", "-10", "12", "100", "-100", "255", "1000", "65536", "1000000007", "-1000000007", "2147483647", "-2147483648", "3037000499", "4294967295", "4294967296", "-4294967296", "9007199254740991", "9007199254740993", "-9007199254740993",
		"4611686018427387904", "-4611686018427387904", "9223372036854775806", "9223372036854775807", "-9223372036854775807", "-9223372036854775808", "9223372036854775808", "9223372036854775809", "12345678901234567890", "18446744073709551614", "18446744073709551615",
		"0.0", "0.5", "-0.5", "1.5", "-1.5", "2.5", "-2.5", "0.49999999999999994", "1.0", "-1.0", "2.0", "3.7", "-3.7", "0.1", "-0.25", "1e-5", "1e-9", "123456.789", "4503599627370497.5", "-4503599627370497.5", "9007199254740993.0", "1e15", "1e16", "1e19", "1e100", "-1e100", "1e308", "45.0", "180", "720", "90", "3.141592653589793", "1.5707963267948966", "0.7853981633974483"} {
		out = append(out, vNum(l))
	}
	if thorough {
		for _, l := range intLits(false) {
			v := vNum(l)
			if v.NC == NInt {
				out = append(out, v)
			}
		}
		for i := -8; i <= 8; i++ {
			out = append(out, vNum(fl(float64(i)/8)), vNum(fl(float64(i)*math.Pi/4)))
		}
	}
	return out
}

func init() {
	register(&Check{
		ID:    "C11",
		Rule:  "case = one function with operands from one place (document members or constants of each numeric type); its result is pinned down by comparing it with the expected value and both its neighbours with all six operators (transcendental functions: by an interval of relative width 1e-11 around the value); integers against math/big, doubles against package math; non-trivial: all; states = distinct (function, operands)",
		Assum: []string{"integer results that leave 64 bits are not specified", "results that are not a number are only required not to fail"},
		Bound: func(t string) string {
			n := "75"
			if t == "thorough" {
				n = "280"
			}
			return "17 unary and 7 binary functions on all pairs of " + n + " numbers (type boundaries, halves, large and tiny doubles) as document members and as constants of types int, int64, uint64 and float64, all with 9 non-numbers and missing members; all functions applied to all functions over 14 numbers"
		},
		Run: func(c *Ctx) {
			nums := c11Numbers(c.Thorough)
			others := []*Val{vStr("a"), vStr("5"), vStr(""), vBool(true), vBool(false), vNull(), vArr(), vArr(vNum("1")), vObj("a", vNum("1")), missing}
			docVals := append(append([]*Val(nil), nums...), others...)
			mem := func(name string, v *Val) string {
				if v.K == KMissing {
					return ""
				}
				return strconv.Quote(name) + ":" + v.String()
			}
			join := func(a, b string) string {
				if a != "" && b != "" {
					return a + "," + b
				}
				return a + b
			}
			run := func(p *fnProbe, name, members string, args ...*Val) string {
				r, ok := evalFunc(name, args)
				if !ok {
					c.Outcome("out of range")
					return ""
				}
				c.Outcome([]string{"missing", "invalid", "", "", "number"}[r.K])
				return p.expect(c, members, r)
			}
			type kst struct {
				c interface{}
				v *Val
			}
			var consts []kst
			for i, v := range nums {
				if v.NC == NFloat {
					consts = append(consts, kst{v.F, constVal(v.F)})
					continue
				}
				if fitsI(v.I) {
					consts = append(consts, kst{v.I.Int64(), constVal(v.I.Int64())})
					if i%3 == 0 {
						consts = append(consts, kst{int(v.I.Int64()), constVal(int(v.I.Int64()))})
					}
				}
				if fitsU(v.I) {
					consts = append(consts, kst{v.I.Uint64(), constVal(v.I.Uint64())})
				}
			}
			consts = append(consts, kst{"a", constVal("a")}, kst{"5", constVal("5")}, kst{nil, constVal(nil)}, kst{true, constVal(true)})
			x, y := fld("x"), fld("y")
			for _, name := range unaryFns {
				name := name
				c.Do(func() string { return name + "(member)" }, func() string {
					p := probe(name+"(x)", fn(name, x), approxFn(name))
					for _, v := range docVals {
						if m := run(p, name, mem("x", v), v); m != "" {
							return m
						}
					}
					c.NonTrivial()
					c.Trace()
					return ""
				})
				for _, k := range consts {
					k := k
					c.Do(func() string { return fmt.Sprintf("%s(%s %T)", name, show(cst(k.c)), k.c) }, func() string {
						p := probe(name+"("+show(cst(k.c))+")", fn(name, cst(k.c)), approxFn(name))
						c.NonTrivial()
						c.Trace()
						return run(p, name, "", k.v)
					})
				}
			}
			for _, name := range binaryFns {
				name := name
				for _, a := range docVals {
					a := a
					c.Do(func() string { return name + "(" + a.String() + ", any member)" }, func() string {
						p := probe(name+"(x,y)", fn(name, x, y), approxFn(name))
						for i, b := range docVals {
							m := join(mem("x", a), mem("y", b))
							if i%2 == 1 {
								m = join(mem("y", b), mem("x", a))
							}
							if s := run(p, name, m, a, b); s != "" {
								return s
							}
						}
						// the same member twice
						p = probe(name+"(x,x)", fn(name, x, x), approxFn(name))
						c.NonTrivial()
						c.Trace()
						return run(p, name, mem("x", a), a, a)
					})
				}
				for _, k := range consts {
					k := k
					c.Do(func() string { return fmt.Sprintf("%s(any member, %s %T) and reversed", name, show(cst(k.c)), k.c) }, func() string {
						p := probe(name+"(x,"+show(cst(k.c))+")", fn(name, x, cst(k.c)), approxFn(name))
						q := probe(name+"("+show(cst(k.c))+",x)", fn(name, cst(k.c), x), approxFn(name))
						for _, v := range docVals {
							if s := run(p, name, mem("x", v), v, k.v); s != "" {
								return s
							}
							if s := run(q, name, mem("x", v), k.v, v); s != "" {
								return s
							}
						}
						c.NonTrivial()
						c.Trace()
						return ""
					})
				}
			}
			// functions of functions
			some := []*Val{vNum("0"), vNum("1"), vNum("-1"), vNum("2"), vNum("-3"), vNum("7"), vNum("9007199254740993"), vNum("18446744073709551615"), vNum("-9223372036854775808"), vNum("0.5"), vNum("-2.5"), vNum("1e10"), vStr("a"), missing}
			for _, outer := range append(append([]string(nil), unaryFns...), binaryFns...) {
				for _, inner := range append(append([]string(nil), unaryFns...), binaryFns...) {
					for side := 0; side < 2; side++ {
						outer, inner, side := outer, inner, side
						ob, ib := false, false
						for _, b := range binaryFns {
							ob = ob || b == outer
							ib = ib || b == inner
						}
						if !ob && side == 1 {
							continue
						}
						c.Do(func() string { return fmt.Sprintf("%s of %s (argument %d)", outer, inner, side+1) }, func() string {
							in := fn(inner, x)
							if ib {
								in = fn(inner, x, y)
							}
							e := fn(outer, in)
							if ob {
								e = fn(outer, in, y)
								if side == 1 {
									e = fn(outer, y, in)
								}
							}
							p := probe(show(e), e, approxFn(outer) || approxFn(inner))
							for _, a := range some {
								for _, b := range some {
									args := []*Val{a, b}
									if !ib {
										args = args[:1]
									}
									r, ok := evalFunc(inner, args)
									if !ok || r.K == KNum && r.NC == NFloat && (math.IsInf(r.F, 0) || math.IsNaN(r.F)) {
										continue
									}
									if approxFn(inner) && r.K == KNum && !smooth(outer) {
										continue // rounding differences would matter
									}
									oargs := []*Val{r}
									if ob {
										oargs = []*Val{r, b}
										if side == 1 {
											oargs = []*Val{b, r}
										}
									}
									if approxFn(inner) && r.K == KNum && math.Abs(r.F) > 1e4 {
										continue
									}
									if s := run(p, outer, join(mem("x", a), mem("y", b)), oargs...); s != "" {
										return s
									}
								}
							}
							c.NonTrivial()
							c.Trace()
							return ""
						})
					}
				}
			}
		},
	})
}

// smooth functions turn a small error of their argument into a small error of the result.
func smooth(name string) bool {
	switch name {
	case g.MathFuncAbs, g.MathFuncNeg, g.MathFuncAtan, g.MathFuncCos, g.MathFuncSin, g.MathFuncDegrees, g.MathFuncRadians:
		return true
	}
	return false
}
