package main

import (
	"fmt"

	g "github.com/couchbaselabs/gojsonsm"
)

// An operand is a document value (reached through a field) or a constant.
type operandSpec struct {
	name string
	doc  *Val        // value in the document, nil for constants
	c    interface{} // constant
	time string      // time constant
	date bool        // DATE of the document value
}

func (o operandSpec) val() *Val {
	if o.time != "" {
		t, _ := dateOf(o.time)
		v := vTime(t)
		v.Cst = true
		return v
	}
	if o.date {
		if o.doc.K == KStr {
			if t, ok := dateOf(o.doc.S); ok {
				return vTime(t)
			}
		}
		return &Val{K: KInvalid}
	}
	if o.doc != nil {
		return o.doc
	}
	return constVal(o.c)
}

func c09Operands() []operandSpec {
	var out []operandSpec
	for _, v := range []*Val{vNull(), vBool(true), vBool(false), vNum("0"), vNum("1"), vNum("-1"), vNum("2"), vNum("10"), vNum("1.5"), vNum("-0.5"), vNum("1.0"), vNum("1E+2"), vNum("18446744073709551615"), vNum("9223372036854775807"),
		vNum("1e300"), vStr(""), vStr("a"), vStr("b"), vStr("ab"), vStr("true"), vStr("FALSE"), vStr("1"), vStr("10"), vStr("9"), vStr("1.5"), vStr("-1"), vStr("x1"), vStr("null"), vStr("é"), vStr("\n"), vStr("2020-01-01"),
		vArr(), vArr(vNum("1")), vArr(vNum("1"), vNum("2")), vObj(), vObj("a", vNum("1"))} {
		out = append(out, operandSpec{name: v.String(), doc: v})
	}
	for _, c := range []interface{}{nil, true, false, 0, 1, -1, 2, 10, int64(9223372036854775807), uint64(18446744073709551615), uint64(1), 1.5, -0.5, 1.0, 100.0, 1e300, "", "a", "b", "ab", "true", "1", "10", "9", "1.5", "-1", "x1", "é", "\n", int8(-1), int16(2), int32(10), uint8(1), uint16(10), uint32(2), uint(9), float32(1), float32(1.5), float32(10)} {
		out = append(out, operandSpec{name: fmt.Sprintf("const %T ", c) + show(cst(c)), c: c})
	}
	for _, s := range []string{"2020-01-01", "2020", "2019-06-15T12:30:00Z"} {
		out = append(out, operandSpec{name: "time " + s, time: s}, operandSpec{name: "DATE of " + s, doc: vStr(s), date: true})
	}
	for _, v := range []*Val{vStr("2019-06-15T12:30:00Z"), vStr("2019-06-15 12:30:00"), vStr("2020"), vStr("2020-13-01"), vStr("202")} {
		out = append(out, operandSpec{name: v.String(), doc: v})
	}
	out = append(out, operandSpec{name: "DATE of text", doc: vStr("a"), date: true}, operandSpec{name: "DATE of 2020", doc: vNum("2020"), date: true}, operandSpec{name: "const date text", c: "2020-01-01"})
	return out
}

type cmpObs struct {
	res  [6]bool
	flag [6]bool
}

// observe performs all six comparisons of x and y on the real matcher.
func observeCmp(c *Ctx, x, y operandSpec, order int) (cmpObs, string) {
	var o cmpObs
	d := vObj()
	side := func(s operandSpec, name string) g.Expression {
		if s.time != "" {
			return g.TimeExpr{Time: s.time}
		}
		if s.doc == nil {
			return cst(s.c)
		}
		d.Obj = append(d.Obj, Member{name, s.doc})
		if s.date {
			return fn(g.DateFunc, fld(name))
		}
		return fld(name)
	}
	l := side(x, "l")
	r := side(y, "r")
	text := encode(d, layout{rev: order == 1})
	c.State(string(text), x.name, y.name)
	for i, op := range cmpOps {
		cm := compile(op.mk(l, r))
		got := cm.run(text, 1)
		c.Trans(1)
		if got.err {
			return o, fmt.Sprintf("%s reported an error on %s", op.name, text)
		}
		if (got.each == "1") != got.match {
			return o, fmt.Sprintf("%s: verdicts differ on %s: %v", op.name, text, got)
		}
		o.res[i], o.flag[i] = got.match, got.flags&g.MatcherCollateUsed != 0
		if got.flags&^g.MatcherCollateUsed != 0 {
			return o, fmt.Sprintf("unknown status flags %d", got.flags)
		}
	}
	return o, ""
}

func init() {
	register(&Check{
		ID:    "C09",
		Rule:  "case = one ordered pair of operands; all six comparisons are performed both ways round and in both member orders, the laws checked between them and each compared with the type and ordering table of the model; non-trivial if the operands differ; states = distinct (document, operands)",
		Assum: []string{"arrays and objects are only compared with values of another type or with an identical text", "conversions between a document's number and a document's string are checked for the laws only"},
		Bound: func(t string) string {
			return "all ordered pairs of 79 operands (41 document values of every type, 33 constants, times, DATE of 5 document values), all triples of document values of one type (order is total), flags of all conjunctions and disjunctions of two comparisons over 12 operands"
		},
		Run: func(c *Ctx) {
			ops := c09Operands()
			const EQ, NE, LT, LE, GT, GE = 0, 1, 2, 3, 4, 5
			for _, x := range ops {
				for _, y := range ops {
					x, y := x, y
					if x.doc == nil && y.doc == nil && x.val().K != y.val().K {
						continue
					}
					c.Do(func() string { return x.name + " with " + y.name }, func() string {
						a, m := observeCmp(c, x, y, 0)
						if m != "" {
							return m
						}
						a2, m := observeCmp(c, x, y, 1)
						if m != "" {
							return m
						}
						b, m := observeCmp(c, y, x, 0)
						if m != "" {
							return m
						}
						if a != a2 {
							return fmt.Sprintf("depends on the member order: %v, %v", a, a2)
						}
						for i := range a.flag {
							if a.flag[i] != a.flag[0] || b.flag[i] != a.flag[0] {
								return fmt.Sprintf("collation is reported by some comparisons only: %v, flipped %v", a.flag, b.flag)
							}
						}
						flag := a.flag[0]
						switch {
						case a.res[EQ] == a.res[NE]:
							return fmt.Sprintf("= is %v and != is %v", a.res[EQ], a.res[NE])
						case a.res[LT] && a.res[GT]:
							return "both < and >"
						case a.res[LE] == a.res[GT] || a.res[GE] == a.res[LT]:
							return fmt.Sprintf("<= is not the opposite of >, or >= of <: %v", a.res)
						case !flag && a.res[LE] != (a.res[LT] || a.res[EQ]):
							return fmt.Sprintf("<= is not < or =: %v", a.res)
						case !flag && a.res[GE] != (a.res[GT] || a.res[EQ]):
							return fmt.Sprintf(">= is not > or =: %v", a.res)
						case flag && a.res[EQ]:
							return "equal although they have no common type"
						case a.res[EQ] != b.res[EQ] || a.res[LT] != b.res[GT] || a.res[GT] != b.res[LT] || a.res[LE] != b.res[GE] || a.res[GE] != b.res[LE]:
							return fmt.Sprintf("flipping the operands does not flip the order: %v, %v", a.res, b.res)
						}
						want := compareVals(x.val(), y.val())
						if want.known {
							for i, op := range cmpOps {
								if w := op.of(want.c, want.eq); w != a.res[i] {
									return fmt.Sprintf("%s should be %v (ordering %d, equal %v)", op.name, w, want.c, want.eq)
								}
							}
							if want.flag != flag {
								return fmt.Sprintf("collation reported: %v, should be %v", flag, want.flag)
							}
							c.Outcome(fmt.Sprintf("order %d flag %v", want.c, flag))
						} else {
							c.Outcome("laws only")
						}
						if x.name != y.name {
							c.NonTrivial()
						}
						c.Trace()
						return ""
					})
				}
			}
			// total order within a type
			lt3 := func(x, y, z operandSpec) {
				c.Do(func() string { return "order of " + x.name + ", " + y.name + ", " + z.name }, func() string {
					d := vObj("x", x.doc, "y", y.doc, "z", z.doc)
					text := encode(d, layout{})
					c.State(string(text))
					ask := func(e g.Expression) bool {
						c.Trans(1)
						return compile(e).run(text, 1).match
					}
					xy, yz, xz := ask(le(fld("x"), fld("y"))), ask(le(fld("y"), fld("z"))), ask(le(fld("x"), fld("z")))
					if xy && yz && !xz {
						return "<= is not transitive"
					}
					c.Trace()
					return ""
				})
			}
			for _, x := range ops {
				for _, y := range ops {
					for _, z := range ops {
						if x.doc == nil || y.doc == nil || z.doc == nil || x.date || y.date || z.date || x.doc.K != y.doc.K || y.doc.K != z.doc.K || x.doc.K == KArr || x.doc.K == KObj {
							continue
						}
						lt3(x, y, z)
					}
				}
			}
			// the flag with several comparisons
			some := []operandSpec{ops[0], ops[1], ops[4], ops[8], ops[16], ops[32], ops[34]}
			cs := []interface{}{nil, true, 1, 1.5, "a"}
			for _, x := range some {
				for _, y := range some {
					for _, p := range cs {
						for _, q := range cs {
							for k := 0; k < 4; k++ {
								x, y, p, q, k := x, y, p, q, k
								c.Do(func() string { return fmt.Sprintf("flag %d of %s with %v, %s with %v", k, x.name, p, y.name, q) }, func() string {
									e1, e2 := eq(fld("x"), cst(p)), lt(fld("y"), cst(q))
									var e g.Expression
									if k&1 == 0 {
										e = and(e1, e2)
									} else {
										e = or(e1, e2)
									}
									d := vObj("x", x.doc, "y", y.doc)
									text := encode(d, layout{rev: k&2 != 0})
									c.State(string(text))
									first, second := e1, e2
									if k&2 != 0 {
										first, second = e2, e1
									}
									w1, k1, f1 := meaning(first, d)
									_, k2, f2 := meaning(second, d)
									if !k1 || !k2 {
										return ""
									}
									// the second comparison is performed unless the first decides
									decided := (k&1 == 0) == !w1
									want := f1 > 0 || !decided && f2 > 0
									got := compile(e).run(text, 1)
									c.Trans(1)
									c.Trace()
									if f1 == 0 && f2 == 0 && got.flags != 0 {
										return "collation reported although no comparison needed it"
									}
									if want && got.flags == 0 {
										return "collation not reported although a comparison needed it"
									}
									return ""
								})
							}
						}
					}
				}
			}
		},
	})
}
