package main

import (
	g "github.com/couchbaselabs/gojsonsm"
)

func init() {
	register(&Check{
		ID:    "C04",
		Rule:  "case = one expression relating several fields, matched on every document of its family (one matcher, reset in between) and compared with the meaning evaluated on the value tree; non-trivial if both verdicts occur; states = distinct document texts",
		Assum: []string{"comparisons of whole arrays or objects with each other only where the texts are identical"},
		Bound: func(t string) string {
			return "conditions: every ordered pair of 20 paths of depth <=2 (quick: 3 operators, thorough: 6), every ordered pair of all paths of up to 5 (thorough: 6) of 2 names (10 conditions), arithmetic over every ordered triple of 6 paths, functions of one and two fields, pairs of such conditions sharing fields, loop variables related to each other, to outer variables and to the document; documents: every value tree of depth <=2 over two keys and arrays of up to two, both member orders; comparisons and loops that wait for a later part of one element, nested object or the document: every pair (each polarity, AND and OR) and triple of 9 such conditions; all functions of up to three others (2220) over three fields, each of them present, missing or of another type" + naryBound(5, t == "thorough") + seriesBound(t == "thorough") + largeBound(t == "thorough")
		},
		Run: func(c *Ctx) {
			doSeries(c, "slot")
			doLarge(c, "slot")
			for n := 3; n <= 5; n++ {
				narySlots(c, n)
			}
			if c.Thorough {
				narySlots(c, 6)
			}
			f, v := fld, vfld
			one := func(x g.Expression, ds []docText) {
				c.Do(func() string { return show(x) }, func() string { return runDocs(c, x, ds) })
			}
			var docs []docText
			for _, t := range c01Trees(2) {
				docs = append(docs, docText{t, encode(t, layout{})})
				if t.K == KObj && len(t.Obj) > 1 {
					docs = append(docs, docText{t, encode(t, layout{rev: true})})
				}
			}
			ps := append(c01Paths(2), []string{})
			ops := cmpOps
			if !c.Thorough {
				ops = []cmpOp{cmpOps[0], cmpOps[1], cmpOps[2]}
			}
			for _, p := range ps {
				for _, q := range ps {
					for _, o := range ops {
						one(o.mk(f(p...), f(q...)), docs)
					}
					one(not(le(f(p...), f(q...))), docs)
					one(and(exists(f(p...)), eq(f(q...), f(p...))), docs)
					one(or(eq(f(p...), cst(1)), eq(f(p...), f(q...))), docs)
					one(eq(fn(g.MathFuncAdd, f(p...), f(q...)), cst(3)), docs)
					one(not(eq(fn(g.MathFuncSub, f(p...), f(q...)), cst(0))), docs)
					one(ge(fn(g.MathFuncMul, fn(g.MathFuncNeg, f(p...)), f(q...)), cst(-2)), docs)
					one(eq(fn(g.MathFuncAbs, f(p...)), f(q...)), docs)
					one(lt(f(p...), fn(g.MathFuncAdd, f(q...), cst(1))), docs)
					one(eq(fn(g.MathFuncPow, f(p...), cst(2)), fn(g.MathFuncSqrt, f(q...))), docs)
				}
			}
			six := [][]string{{"a"}, {"b"}, {"a", "a"}, {"a", "b"}, {"b", "a"}, {"a", "[0]"}}
			for _, p := range six {
				for _, q := range six {
					for _, r := range six {
						one(eq(fn(g.MathFuncAdd, f(p...), f(q...)), f(r...)), docs)
						one(lt(f(p...), fn(g.MathFuncMul, f(q...), f(r...))), docs)
						one(and(eq(f(p...), f(q...)), ne(f(q...), f(r...))), docs)
						one(or(lt(f(p...), f(q...)), lt(f(q...), f(r...))), docs)
						one(and(not(eq(f(p...), f(r...))), or(exists(f(q...)), gt(f(q...), f(r...)))), docs)
						if c.Thorough {
							for _, s := range six {
								one(eq(fn(g.MathFuncAdd, f(p...), f(q...)), fn(g.MathFuncSub, f(r...), f(s...))), docs)
								one(and(eq(f(p...), f(q...)), eq(f(r...), f(s...))), docs)
								one(or(lt(f(p...), f(q...)), not(lt(f(r...), f(s...)))), docs)
							}
						}
					}
				}
			}
			// three levels: a field and the ancestors of it
			var deep []docText
			small := []*Val{vNum("1"), vNum("2"), vObj(), vArr(vNum("1")), vObj("c", vNum("1")), vObj("c", vNum("2"), "d", vNum("1"))}
			for _, x := range small {
				for _, y := range small {
					for _, d := range []*Val{vObj("a", vObj("b", x, "e", y)), vObj("a", vObj("b", x), "b", y), vObj("b", y, "a", vObj("b", x)), vObj("a", vArr(x, y)), vObj("a", vArr(y, vObj("b", x)), "b", x)} {
						deep = append(deep, docText{d, encode(d, layout{})}, docText{d, encode(d, layout{rev: true, ws: "\n"})})
					}
				}
			}
			dp := [][]string{{"a"}, {"a", "b"}, {"a", "b", "c"}, {"a", "b", "d"}, {"a", "e"}, {"a", "e", "c"}, {"b"}, {"b", "c"}, {"a", "[1]", "b"}, {"a", "[0]", "c"}, {"a", "[0]"}, {"a", "[1]"}}
			for _, p := range dp {
				for _, q := range dp {
					for _, o := range cmpOps {
						one(o.mk(f(p...), f(q...)), deep)
					}
					for _, r := range dp {
						one(and(eq(f(p...), f(q...)), eq(f(q...), f(r...))), deep)
						one(or(not(exists(f(p...))), lt(f(q...), f(r...))), deep)
						if c.Thorough {
							one(eq(fn(g.MathFuncAdd, f(p...), f(q...)), f(r...)), deep)
							one(or(not(eq(f(p...), f(q...))), lt(f(q...), f(r...))), deep)
						}
					}
				}
			}
			// loop variables
			var ldocs []docText
			el := []*Val{vNum("1"), vNum("2"), vObj("k", vNum("1")), vObj("k", vNum("2"), "l", vNum("1")), vObj("l", vNum("2")), vArr(vNum("1"))}
			seqs(el, 2, func(s []*Val) {
				seqs(el, 2, func(r []*Val) {
					d := vObj("x", vArr(s...), "a", vNum("1"), "y", vArr(r...))
					ldocs = append(ldocs, docText{d, encode(d, layout{})})
					if len(r) < 2 {
						e := vObj("x", vArr(s...), "y", vArr(r...))
						ldocs = append(ldocs, docText{d, encode(d, layout{rev: true})}, docText{e, encode(e, layout{rev: true})})
					}
				})
			})
			conds := []g.Expression{eq(v(1, "k"), v(2, "k")), eq(v(1), v(2)), lt(v(1, "k"), v(2, "l")), not(eq(v(1, "l"), v(2, "k"))), eq(fn(g.MathFuncAdd, v(1, "k"), v(2, "l")), f("a")), eq(fn(g.MathFuncAdd, v(2), v(1)), cst(3)),
				and(eq(v(1, "k"), f("a")), eq(v(2, "l"), v(1, "l"))), eq(v(2, "k"), v(2, "l")), or(eq(v(2, "k"), v(1, "l")), eq(v(1, "k"), v(2, "l"))), gt(fn(g.MathFuncMul, v(2, "k"), f("a")), v(1, "[0]"))}
			for _, m1 := range loopModes {
				for _, m2 := range loopModes {
					for _, b := range conds {
						one(m1(1, f("x"), m2(2, f("y"), b)), ldocs)
						one(m1(1, f("x"), not(m2(2, f("y"), b))), ldocs)
					}
				}
				for _, b := range []g.Expression{eq(v(1, "k"), f("a")), eq(v(1, "k"), v(1, "l")), eq(v(1, "k"), f("y", "[0]", "k")), lt(f("y", "[0]"), v(1)), eq(fn(g.MathFuncAdd, v(1, "k"), v(1, "l")), cst(3)),
					eq(fn(g.MathFuncSub, v(1, "k"), f("a")), v(1, "l")), not(eq(v(1), v(1, "[0]"))), and(eq(v(1, "k"), f("a")), notExists(v(1, "l"))), gt(v(1, "l"), f("y", "[1]", "l"))} {
					one(m1(1, f("x"), b), ldocs)
					one(and(m1(1, f("x"), b), eq(f("a"), f("x", "[0]"))), ldocs)
					one(or(not(m1(1, f("x"), b)), eq(f("x", "[1]"), f("y", "[0]"))), ldocs)
				}
			}
			c04Mixed(c)
			c04Paths(c)
			c04Missing(c)
		},
	})
}

// c04Mixed: comparisons and loops which all have to wait for a later part of one value (of an
// element of an array, of a nested object, of the document), and what follows that value.
func c04Mixed(c *Ctx) {
	f, v := fld, vfld
	one := func(x g.Expression, ds []docText) {
		c.Do(func() string { return show(x) }, func() string { return runDocs(c, x, ds) })
	}
	again := func(x g.Expression, n g.VariableID) g.Expression {
		return renameVar(renameVar(x, 2, 10*n+2), 3, 10*n+3)
	}
	combine := func(leaves []g.Expression, emit func(g.Expression)) {
		for i, x := range leaves {
			emit(x)
			emit(not(x))
			for j, y := range leaves {
				if i == j {
					continue
				}
				y = again(y, 1)
				for k := 0; k < 8; k++ {
					if k&4 == 0 {
						emit(and(pol(x, k&1 != 0), pol(y, k&2 != 0)))
					} else {
						emit(or(pol(x, k&1 != 0), pol(y, k&2 != 0)))
					}
				}
				for l, z := range leaves {
					if l <= j || l == i {
						continue
					}
					z = again(z, 2)
					emit(or(x, y, z))
					emit(and(not(x), or(y, not(z))))
				}
			}
		}
	}
	o := func(a, b, cc string, p *Val) *Val {
		x := vObj()
		for _, m := range []struct{ k, v string }{{"a", a}, {"b", b}, {"c", cc}} {
			if m.v != "" {
				x.Obj = append(x.Obj, Member{m.k, vNum(m.v)})
			}
		}
		if p != nil {
			x.Obj = append(x.Obj, Member{"p", p})
		}
		return x
	}
	els := []*Val{o("1", "1", "2", vArr(vNum("1"))), o("1", "2", "3", vArr(vNum("1"), vNum("3"))), o("2", "2", "1", vArr()), o("1", "2", "", vArr(vNum("1"))), o("1", "2", "1", nil), vNum("1"),
		vObj("p", vArr(vNum("1"), vNum("1")), "c", vNum("1"), "b", vNum("2"), "a", vNum("2"))}
	orders := func(d *Val) []docText {
		var out []docText
		for _, e := range memberOrders(d) {
			out = append(out, docText{d, encode(e, layout{})})
		}
		return out
	}
	var ldocs []docText
	ms := []*Val{vArr(), vArr(vNum("1"), vNum("2"))}
	seqs(els, 2, func(s []*Val) {
		for mi, m := range ms {
			d := vObj("m", m, "l", vArr(s...), "z", vNum("1"))
			if len(s) < 2 || c.Thorough {
				ldocs = append(ldocs, orders(d)...)
			} else {
				ldocs = append(ldocs, docText{d, encode(d, layout{rev: mi == 0})})
			}
			e := vObj("l", vArr(s...), "z", vNum("2"), "m", m)
			ldocs = append(ldocs, docText{e, encode(e, layout{})})
		}
	})
	leaves := []g.Expression{eq(v(1, "a"), v(1, "b")), lt(v(1, "a"), v(1, "c")), eq(fn(g.MathFuncAdd, v(1, "a"), v(1, "b")), v(1, "c")), anyIn(2, f("m"), eq(v(2), v(1, "c"))),
		everyIn(2, f("m"), lt(v(1, "a"), v(2))), anyIn(3, v(1, "p"), eq(v(3), v(1, "c"))), everyIn(3, v(1, "p"), eq(v(3), cst(1))), eq(v(1, "a"), f("z")), eq(v(1, "b"), cst(2))}
	combine(leaves, func(x g.Expression) {
		for _, m := range loopModes[:2] {
			one(and(m(1, f("l"), x), eq(f("z"), cst(1))), ldocs)
		}
		if c.Thorough {
			one(or(not(anyEveryIn(1, f("l"), x)), exists(f("l", "[1]", "p"))), ldocs)
		}
	})
	// the same below a nested object and at the top
	var odocs, tdocs []docText
	for _, e := range append(els, o("2", "1", "1", vArr(els[0], vNum("2"))), o("", "1", "1", vArr(vNum("2"), vNum("1")))) {
		for _, m := range ms {
			odocs = append(odocs, orders(vObj("m", m, "o", e, "z", vNum("1")))...)
			for _, e2 := range memberOrders(e) {
				x := vObj("o", e2, "z", vNum("2"), "m", m)
				odocs = append(odocs, docText{x, encode(x, layout{})}, docText{x, encode(x, layout{rev: true, ws: " "})})
			}
			if e.K == KObj {
				t := vObj("m", m)
				t.Obj = append(t.Obj, e.Obj...)
				tdocs = append(tdocs, orders(t)...)
			}
		}
	}
	below := func(p ...string) []g.Expression {
		q := func(n string) g.FieldExpr { return f(append(append([]string{}, p...), n)...) }
		return []g.Expression{eq(q("a"), q("b")), lt(q("a"), q("c")), eq(fn(g.MathFuncAdd, q("a"), q("b")), q("c")), anyIn(2, f("m"), eq(v(2), q("c"))),
			everyIn(2, f("m"), lt(q("a"), v(2))), anyIn(3, q("p"), eq(v(3), q("c"))), everyIn(3, q("p"), eq(v(3), cst(1))), eq(q("a"), f("z")), anyIn(3, q("p"), eq(v(3, "a"), v(3, "b")))}
	}
	combine(below("o"), func(x g.Expression) {
		one(x, odocs)
		one(and(x, eq(f("z"), cst(1))), odocs)
	})
	combine(below(), func(x g.Expression) { one(x, tdocs) })
}
