package main

import (
	g "github.com/couchbaselabs/gojsonsm"
)

type loopMode func(v g.VariableID, in, s g.Expression) g.Expression

var loopModes = []loopMode{anyIn, everyIn, anyEveryIn}

// seqs calls f with every sequence over the alphabet of up to n elements.
func seqs(alpha []*Val, n int, f func([]*Val)) {
	var rec func(p []*Val)
	rec = func(p []*Val) {
		f(append([]*Val{}, p...))
		if len(p) == n {
			return
		}
		for _, a := range alpha {
			rec(append(p, a))
		}
	}
	rec(nil)
}

func c03Bodies(leaves []g.Expression, pairs bool) []g.Expression {
	var out []g.Expression
	for _, l := range leaves {
		out = append(out, l, not(l))
	}
	if pairs {
		for _, l := range leaves {
			for _, m := range leaves {
				for k := 0; k < 8; k++ {
					x, y := pol(l, k&1 != 0), pol(m, k&2 != 0)
					if k&4 == 0 {
						out = append(out, and(x, y))
					} else {
						out = append(out, or(x, y))
					}
				}
			}
		}
	}
	return out
}

func init() {
	register(&Check{
		ID:    "C03",
		Rule:  "case = one expression with loops, matched on every document of its family and compared with the quantifiers evaluated on the value tree; non-trivial if both verdicts occur; states = distinct document texts",
		Assum: []string{"no comparisons of whole arrays or objects with each other"},
		Bound: func(t string) string {
			n := "3"
			if t == "thorough" {
				n = "4"
			}
			return "every ordered pair of all paths of up to 4 (thorough: 5) of 2 names and 3 longer ones related inside of elements that have both, one or none of them; 33 cases of arrays of 253 to 259, 511 to 514 and 65537 elements whose first element is the only one of its kind; arrays: every sequence of up to " + n + " of 8 kinds of elements (nested loops: up to 2-3 of 9 kinds), the array before and after the other field, missing, empty, or not an array; bodies: every condition of a 10 condition alphabet and every pair of them with every polarity; ANY/EVERY/ANY AND EVERY, negated; two and three loops over one array; loops nested 2 and 3 deep over the element, its field, and arrays of the document, with variables of their own and with one that is used again" + "; all AND/OR formulas of 3 and 4 conditions as loop bodies" + seriesBound(t == "thorough") + largeBound(t == "thorough")
		},
		Run: func(c *Ctx) {
			doSeries(c, "loop")
			c03Paths(c)
			doLarge(c, "loop")
			naryLoops(c, 3)
			naryLoops(c, 4)
			f, v := fld, vfld
			alpha := []*Val{vNum("1"), vNum("2"), vObj("k", vNum("1")), vObj("k", vNum("2"), "l", vNum("2")), vObj("l", vNum("1")), vArr(vNum("1"), vNum("2")), vNull(), vObj("l", vNum("2"), "k", vObj("m", vNum("1")))}
			n := 3
			if c.Thorough {
				n = 4
			}
			var docs, shortDocs []docText
			add := func(to *[]docText, d *Val) {
				*to = append(*to, docText{d, encode(d, layout{})})
			}
			both := func(to *[]docText, d *Val) {
				for _, o := range memberOrders(d) {
					*to = append(*to, docText{d, encode(o, layout{})})
				}
			}
			special := func(to *[]docText) {
				for _, x := range []*Val{nil, vNum("1"), vNull(), vStr("[1]"), vObj(), vObj("k", vNum("1")), vBool(true), vObj("[0]x", vNum("1"))} {
					for _, y := range []*Val{nil, vNum("1"), vNum("2")} {
						d := vObj()
						if x != nil {
							d.Obj = append(d.Obj, Member{"arr", x})
						}
						if y != nil {
							d.Obj = append(d.Obj, Member{"a", y})
						}
						both(to, d)
					}
				}
				add(to, vArr())
				add(to, vArr(vNum("1")))
				add(to, vNum("1"))
			}
			seqs(alpha, n, func(s []*Val) {
				both(&docs, vObj("arr", vArr(s...), "a", vNum("1")))
				if len(s) <= 2 {
					both(&shortDocs, vObj("arr", vArr(s...), "a", vNum("1")))
					add(&shortDocs, vObj("arr", vArr(s...), "a", vNum("2")))
					add(&shortDocs, vObj("arr", vArr(s...)))
				}
			})
			special(&docs)
			special(&shortDocs)
			one := func(x g.Expression, ds []docText) {
				c.Do(func() string { return show(x) }, func() string { return runDocs(c, x, ds) })
			}
			leaves := []g.Expression{
				eq(v(1), cst(1)), eq(v(1, "k"), cst(1)), exists(v(1, "l")), gt(v(1), cst(1)), notExists(v(1, "k")),
				eq(v(1, "k"), v(1, "l")), eq(v(1), f("a")), eq(v(1, "k", "m"), cst(1)), eq(v(1, "[1]"), cst(2)), lt(v(1, "l"), f("a")),
			}
			for _, mode := range loopModes {
				for _, b := range c03Bodies(leaves, false) {
					for k := 0; k < 2; k++ {
						one(pol(mode(1, f("arr"), b), k == 1), docs)
						one(and(pol(mode(1, f("arr"), b), k == 1), eq(f("a"), cst(1))), docs)
						one(or(eq(f("a"), cst(2)), pol(mode(1, f("arr"), b), k == 1)), docs)
					}
				}
				for _, b := range c03Bodies(leaves, true)[2*len(leaves):] {
					one(mode(1, f("arr"), b), docs)
					one(not(mode(1, f("arr"), b)), shortDocs)
				}
			}
			// several loops over one array
			lb := []g.Expression{eq(v(1), cst(1)), not(eq(v(1), cst(1))), eq(v(1, "k"), cst(1)), exists(v(1, "l")), and(exists(v(1, "k")), not(eq(v(1, "k"), cst(1)))), eq(v(1), f("a")), eq(v(1, "k"), v(1, "l"))}
			rename := func(x g.Expression, to g.VariableID) g.Expression { return renameVar(x, 1, to) }
			for _, m1 := range loopModes {
				for _, m2 := range loopModes {
					for _, b1 := range lb {
						for _, b2 := range lb {
							for k := 0; k < 8; k++ {
								x, y := pol(m1(1, f("arr"), b1), k&1 != 0), pol(m2(2, f("arr"), rename(b2, 2)), k&2 != 0)
								ds := shortDocs
								if c.Thorough || k == 0 || k == 4 {
									ds = docs
								}
								if k&4 == 0 {
									one(and(x, y), ds)
								} else {
									one(or(x, y), ds)
								}
							}
						}
					}
				}
			}
			for _, m1 := range loopModes {
				for _, m2 := range loopModes {
					for _, m3 := range loopModes {
						for i := range lb {
							x := m1(1, f("arr"), lb[i])
							y := m2(2, f("arr"), rename(lb[(i+1)%len(lb)], 2))
							z := m3(3, f("arr"), rename(lb[(i+3)%len(lb)], 3))
							one(and(x, y, z), shortDocs)
							one(or(x, and(y, not(z))), shortDocs)
							one(and(or(x, y), or(not(y), z), exists(f("arr", "[1]"))), shortDocs)
						}
					}
				}
			}
			// targets: a nested array, an element, the whole document
			var tdocs []docText
			seqs(alpha[:5], 2, func(s []*Val) {
				both(&tdocs, vObj("o", vObj("arr", vArr(s...), "x", vNum("1")), "a", vNum("1")))
				add(&tdocs, vArr(s...))
				add(&tdocs, vArr(vArr(s...), vNum("1")))
				add(&tdocs, vObj("o", vArr(vArr(vNum("1")), vArr(s...)), "a", vNum("1")))
			})
			special(&tdocs)
			for _, mode := range loopModes {
				for _, b := range c03Bodies(leaves, false) {
					for _, t := range [][]string{{"o", "arr"}, {}, {"[0]"}, {"o", "[1]"}} {
						one(mode(1, f(t...), b), tdocs)
						one(not(mode(1, f(t...), b)), tdocs)
						if len(t) > 0 {
							one(or(mode(1, f(t...), b), eq(f(t...), cst(1))), tdocs)
							one(and(mode(1, f(t...), b), not(exists(f(append(append([]string{}, t...), "[1]")...)))), tdocs)
						}
					}
				}
			}
			// nested loops
			nalpha := []*Val{vArr(vNum("1"), vNum("2")), vArr(), vArr(vNum("1")), vNum("1"), vObj("arr", vArr(vNum("1"), vObj("k", vNum("1"))), "k", vNum("1")),
				vObj("arr", vArr(vObj("k", vNum("2"))), "k", vNum("2")), vObj("k", vNum("1")), vObj("arr", vArr()), vObj("k", vNum("2"), "arr", vArr(vNum("2"), vNum("1")))}
			var ndocs, nshort []docText
			seqs(nalpha, 3, func(s []*Val) {
				d := vObj("a", vNum("1"), "arr", vArr(s...), "b", vArr(vNum("1"), vNum("2"), vObj("k", vNum("1"))))
				if len(s) <= 2 {
					add(&nshort, d)
					nshort = append(nshort, docText{d, encode(d, layout{rev: true})})
				}
				if len(s) <= 2 || c.Thorough {
					both(&ndocs, d)
				} else {
					add(&ndocs, d)
				}
				if len(s) <= 1 {
					add(&ndocs, vObj("arr", vArr(s...)))
					add(&ndocs, vObj("arr", vArr(s...), "b", vNum("1")))
					both(&ndocs, vObj("arr", vArr(s...), "b", vArr()))
					add(&nshort, vObj("arr", vArr(s...)))
				}
			})
			special(&ndocs)
			special(&nshort)
			inner := []g.Expression{eq(v(2), cst(1)), not(eq(v(2), cst(1))), eq(v(2, "k"), cst(1)), not(exists(v(2, "k"))), eq(v(2), v(1, "k")), eq(v(2), f("a")), not(eq(v(2), v(1, "k"))),
				and(eq(v(2, "k"), cst(1)), exists(v(1, "k"))), or(eq(v(2), f("a")), not(eq(v(1, "k"), cst(1)))), lt(v(1, "k"), v(2))}
			targets := []g.Expression{v(1), v(1, "arr"), f("b")}
			wraps := []func(g.Expression) g.Expression{
				func(x g.Expression) g.Expression { return x },
				func(x g.Expression) g.Expression { return not(x) },
				func(x g.Expression) g.Expression { return and(eq(v(1, "k"), cst(1)), x) },
				func(x g.Expression) g.Expression { return or(x, not(exists(v(1, "k")))) },
				func(x g.Expression) g.Expression { return and(not(x), exists(v(1, "arr"))) },
				func(x g.Expression) g.Expression { return or(x, eq(v(1), f("a"))) },
			}
			for _, m1 := range loopModes {
				for _, m2 := range loopModes {
					for _, t := range targets {
						for _, b := range inner {
							for wi, w := range wraps {
								x := m1(1, f("arr"), w(m2(2, t, b)))
								ds := nshort
								if wi < 2 || c.Thorough {
									ds = ndocs
								}
								one(x, ds)
								if wi < 3 {
									one(not(x), nshort)
									one(and(x, eq(f("a"), cst(1))), nshort)
								}
							}
						}
						// two loops in one body
						for bi := range inner {
							x := m1(1, f("arr"), and(m2(2, t, inner[bi]), renameVar(m1(2, v(1), inner[(bi+1)%len(inner)]), 2, 3)))
							one(x, nshort)
							one(m1(1, f("arr"), or(m2(2, t, inner[bi]), not(renameVar(m2(2, v(1, "arr"), inner[(bi+2)%len(inner)]), 2, 3)))), nshort)
							// and one beside it
							one(and(m1(1, f("arr"), m2(2, t, inner[bi])), anyIn(4, f("arr"), eq(v(4, "k"), cst(1)))), nshort)
							one(or(m1(1, f("arr"), m2(2, t, inner[bi])), not(everyIn(4, f("b"), exists(v(4, "k"))))), nshort)
						}
					}
				}
			}
			// one variable for several loops: it means the innermost loop that introduces it
			for _, m1 := range loopModes {
				for _, m2 := range loopModes {
					for bi, b1 := range lb {
						b2 := lb[(bi+2)%len(lb)]
						one(and(m1(1, f("arr"), b1), m2(1, f("arr"), b2)), shortDocs)
						one(or(not(m1(1, f("arr"), b1)), and(m2(1, f("arr"), b2), eq(f("a"), cst(1)))), shortDocs)
					}
					for _, t := range targets {
						for bi, b := range inner {
							x := m2(1, t, renameVar(b, 2, 1))
							one(m1(1, f("arr"), x), nshort)
							one(not(m1(1, f("arr"), not(x))), nshort)
							// the outer variable is back before and after the inner loop
							one(m1(1, f("arr"), and(eq(v(1, "k"), cst(1)), x)), nshort)
							one(m1(1, f("arr"), or(x, eq(v(1, "k"), cst(2)), not(exists(v(1, "arr"))))), nshort)
							one(m1(1, f("arr"), and(x, renameVar(m2(2, v(1), inner[(bi+3)%len(inner)]), 2, 3), exists(v(1, "[0]")))), nshort)
							// with another variable between
							for _, m3 := range loopModes {
								one(m1(1, f("arr"), m2(2, t, m3(1, v(2), renameVar(b, 2, 1)))), nshort)
								one(m1(1, f("arr"), m2(1, t, and(m3(2, f("b"), b), exists(v(1))))), nshort)
							}
						}
					}
				}
			}
			// one array looped over inside of a loop over itself, or named in the body
			for _, m1 := range loopModes {
				for _, m2 := range loopModes {
					for k := 0; k < 4; k++ {
						for _, b := range []g.Expression{eq(v(2), v(1)), eq(v(2, "k"), v(1, "k")), not(eq(v(2), v(1))), lt(v(2), v(1)), exists(v(2, "k")), and(eq(v(2), v(1)), exists(f("arr", "[1]")))} {
							one(pol(m1(1, f("arr"), pol(m2(2, f("arr"), b), k&1 != 0)), k&2 != 0), nshort)
							one(pol(m1(1, f("b"), pol(m2(2, f("arr"), renameVar(b, 9, 9)), k&1 != 0)), k&2 != 0), nshort)
						}
						for _, b := range []g.Expression{eq(v(3), cst(1)), eq(v(3), v(2)), not(eq(v(3), v(2)))} {
							for _, m3 := range loopModes {
								one(m1(1, f("arr"), pol(m2(2, v(1), pol(m3(3, v(1), b), k&1 != 0)), k&2 != 0)), nshort)
								one(m1(1, f("arr"), pol(m2(2, v(1), pol(m3(3, f("b"), b), k&1 != 0)), k&2 != 0)), nshort)
								one(m1(1, f("arr"), pol(m2(2, f("b"), pol(m3(3, v(1), b), k&1 != 0)), k&2 != 0)), nshort)
								one(m1(1, f("arr"), pol(m2(2, f("b"), pol(m3(3, v(1, "arr"), b), k&1 != 0)), k&2 != 0)), nshort)
							}
						}
					}
				}
				for _, b := range []g.Expression{eq(v(1), f("arr", "[0]")), not(eq(v(1), f("arr", "[1]"))), exists(f("arr")), and(exists(f("arr", "[1]")), eq(v(1), cst(1))), eq(v(1, "k"), f("arr", "[0]", "k")), eq(v(1), f("arr", "[0]", "[0]"))} {
					one(m1(1, f("arr"), b), shortDocs)
					one(and(m1(1, f("arr"), b), exists(f("arr", "[0]"))), shortDocs)
				}
			}
			// three levels
			var deep []docText
			in1 := []*Val{vArr(), vArr(vNum("1")), vArr(vNum("2")), vArr(vNum("1"), vNum("2")), vNum("1")}
			seqs(in1, 2, func(s []*Val) {
				seqs(in1[:4], 2, func(r []*Val) {
					d := vObj("arr", vArr(vArr(s...), vArr(r...)), "a", vNum("1"))
					add(&deep, d)
					if len(r) == 0 {
						add(&deep, vObj("a", vNum("2"), "arr", vArr(vArr(s...))))
					}
				})
			})
			for _, m1 := range loopModes {
				for _, m2 := range loopModes {
					for _, m3 := range loopModes {
						for k := 0; k < 8; k++ {
							for _, b := range []g.Expression{eq(v(3), cst(1)), eq(v(3), f("a")), eq(v(3), v(2, "[0]")), eq(v(3), v(1, "[0]", "[0]"))} {
								one(m1(1, f("arr"), pol(m2(2, v(1), pol(m3(3, v(2), pol(b, k&1 != 0)), k&2 != 0)), k&4 != 0)), deep)
							}
						}
					}
				}
			}
		},
	})
}

// renameVar replaces a loop variable everywhere in an expression.
func renameVar(x g.Expression, from, to g.VariableID) g.Expression {
	r := func(y g.Expression) g.Expression { return renameVar(y, from, to) }
	id := func(v g.VariableID) g.VariableID {
		if v == from {
			return to
		}
		return v
	}
	list := func(l []g.Expression) []g.Expression {
		var out []g.Expression
		for _, e := range l {
			out = append(out, r(e))
		}
		return out
	}
	switch x := x.(type) {
	case g.FieldExpr:
		return g.FieldExpr{Root: id(x.Root), Path: x.Path}
	case g.FuncExpr:
		return g.FuncExpr{FuncName: x.FuncName, Params: list(x.Params)}
	case g.NotExpr:
		return not(r(x.SubExpr))
	case g.AndExpr:
		return g.AndExpr(list(x))
	case g.OrExpr:
		return g.OrExpr(list(x))
	case g.ExistsExpr:
		return exists(r(x.SubExpr))
	case g.NotExistsExpr:
		return notExists(r(x.SubExpr))
	case g.EqualsExpr:
		return eq(r(x.Lhs), r(x.Rhs))
	case g.NotEqualsExpr:
		return ne(r(x.Lhs), r(x.Rhs))
	case g.LessThanExpr:
		return lt(r(x.Lhs), r(x.Rhs))
	case g.LessEqualsExpr:
		return le(r(x.Lhs), r(x.Rhs))
	case g.GreaterThanExpr:
		return gt(r(x.Lhs), r(x.Rhs))
	case g.GreaterEqualsExpr:
		return ge(r(x.Lhs), r(x.Rhs))
	case g.LikeExpr:
		return g.LikeExpr{Lhs: r(x.Lhs), Rhs: r(x.Rhs)}
	case g.AnyInExpr:
		return anyIn(id(x.VarId), r(x.InExpr), r(x.SubExpr))
	case g.EveryInExpr:
		return everyIn(id(x.VarId), r(x.InExpr), r(x.SubExpr))
	case g.AnyEveryInExpr:
		return anyEveryIn(id(x.VarId), r(x.InExpr), r(x.SubExpr))
	}
	return x
}
