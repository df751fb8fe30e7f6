package main

import (
	"fmt"

	g "github.com/couchbaselabs/gojsonsm"
)

func c06Exprs() []g.Expression {
	f, v := fld, vfld
	return []g.Expression{
		eq(f("a"), cst(1)), not(eq(f("a"), cst(1))), gt(f("b"), cst(1)), and(eq(f("a"), cst(1)), gt(f("b"), cst(1))), or(exists(f("q")), not(exists(f("b")))),
		g.TrueExpr{}, g.FalseExpr{}, eq(f("a"), f("b")), anyIn(1, f("nums"), eq(v(1), cst(1))), everyIn(1, f("nums"), gt(v(1), cst(0))),
		anyIn(1, f("nums"), eq(v(1), f("a"))), exists(f("a")), eq(fn(g.MathFuncAdd, f("a"), f("b")), cst(3)), not(anyEveryIn(1, f("nums"), not(eq(v(1), cst(2))))),
		g.LikeExpr{Lhs: f("s"), Rhs: g.RegexExpr{Regex: "x"}}, and(or(eq(f("a"), cst(1)), eq(f("s"), cst("x"))), not(eq(f("nums", "[0]"), cst(2)))),
		or(eq(f("a"), cst(1)), g.FalseExpr{}), and(eq(f("b"), cst(2)), g.TrueExpr{}),
		eq(cst(1), cst(1)), not(g.TrueExpr{}), anyIn(1, f("mat"), everyIn(2, v(1), eq(v(2), f("a")))),
	}
}

func init() {
	register(&Check{
		ID:    "C06",
		Rule:  "case = one list of expressions compiled together; on every document the verdict of each is compared with compiling and matching it alone, and with its reference meaning, and the combined verdict with their disjunction; non-trivial if some but not all match somewhere; states = distinct (expression, verdict vector)",
		Assum: []string{"verdicts are read after a match that reported no error"},
		Bound: func(t string) string {
			if t == "thorough" {
				return "all lists of up to 4 of 21 expressions (with repetition) and of 5 of 11, all pairs and triples of 46 others on 18 documents, 20 lists of 5-40; 14 documents in two member orders; 41 pairs of conditions that look alike in 12 lists, and all pairs of pairs, with 49 documents" + seriesBound(t == "thorough")
			}
			return "all lists of up to 4 of 21 expressions (with repetition), all pairs and a fifth of the triples of 46 others on 18 documents, 20 lists of 5-40; 14 documents in two member orders; 41 pairs of conditions that look alike in 12 lists, and all pairs of pairs, with 49 documents" + seriesBound(t == "thorough")
		},
		Run: func(c *Ctx) {
			c06Series(c)
			ex := c06Exprs()
			var docs []docText
			for _, v := range []*Val{
				vObj(), vObj("a", vNum("1")), vObj("a", vNum("2"), "b", vNum("2")), vObj("a", vNum("1"), "b", vNum("2"), "s", vStr("x"), "nums", vArr(vNum("1"), vNum("2"))),
				vObj("nums", vArr()), vObj("nums", vArr(vNum("2"), vNum("0"))), vObj("nums", vArr(vNum("1")), "a", vNum("1")), vObj("q", vNull(), "a", vNum("2"), "nums", vArr(vNum("2"))),
				vObj("s", vStr("xx")), vObj("s", vNum("1"), "a", vStr("x")), vArr(vNum("1")), vNum("1"), vObj("mat", vArr(vArr(vNum("1")), vArr()), "a", vNum("1"), "b", vNum("1")),
				vObj("mat", vArr(vArr(vNum("3"))), "a", vNum("3"), "b", vNum("0"), "nums", vNum("1")),
			} {
				docs = append(docs, docText{v, encode(v, layout{})})
				if len(v.Obj) > 1 {
					docs = append(docs, docText{v, encode(v, layout{rev: true})})
				}
			}
			alone := map[string]string{}
			listOn := func(l []g.Expression, dset int, docs []docText) {
				l = append([]g.Expression{}, l...)
				c.Do(func() string {
					s := ""
					for _, e := range l {
						s += "; " + show(e)
					}
					return s[2:]
				}, func() string {
					cm := compile(l...)
					mixed := false
					for di, d := range docs {
						cm.m.Reset()
						got := cm.run(d.text, len(l))
						c.Trans(1)
						want := ""
						combined := false
						for _, e := range l {
							key := fmt.Sprint(dset, di, dumpE(e))
							w, ok := alone[key]
							if !ok {
								a := compile(e).run(d.text, 1)
								w = a.each
								if a.err {
									w = "E"
								}
								if (w == "1") != a.match {
									return fmt.Sprintf("%s alone on %s: the expression's own verdict is %s, the combined one %v", show(e), d.text, w, a.match)
								}
								m, known, _ := meaning(e, d.v)
								if known && m != (w == "1") {
									return fmt.Sprintf("%s alone on %s should be %v", show(e), d.text, m)
								}
								alone[key] = w
							}
							want += w
							combined = combined || w == "1"
						}
						if got.err || got.each != want || got.match != combined {
							return fmt.Sprintf("on %s: alone %s, together %v", d.text, want, got)
						}
						c.State(want)
						for i := range want {
							mixed = mixed || want[i] != want[0]
						}
					}
					if mixed {
						c.NonTrivial()
					}
					c.Trace()
					if len(l) > 5 {
						c.Outcome("longer")
					} else {
						c.Outcome(fmt.Sprint("length ", len(l)))
					}
					return ""
				})
			}
			list := func(l []g.Expression) { listOn(l, 0, docs) }
			tdocs := twinDocs()
			tw := twins()
			for i, t := range tw {
				x, y, z := t[0], t[1], tw[(i+7)%len(tw)][i%2]
				for _, l := range [][]g.Expression{{x, y}, {y, x}, {x, y, x}, {y, y, x}, {z, x, y}, {x, z, y}, {or(x, y), x}, {and(x, y), y, x}, {not(x), y}, {and(z, x), and(z, y)}, {or(z, y), or(z, x)}, {not(x), not(y), x, y}} {
					listOn(l, 1, tdocs)
				}
			}
			for i := range tw {
				for j := range tw {
					listOn([]g.Expression{tw[i][0], tw[j][1], tw[i][1], tw[j][0]}, 1, tdocs)
				}
			}
			for _, a := range ex {
				list([]g.Expression{a})
				for _, b := range ex {
					list([]g.Expression{a, b})
				}
			}
			for _, a := range ex {
				for _, b := range ex {
					for _, d := range ex {
						list([]g.Expression{a, b, d})
						for _, e := range ex {
							list([]g.Expression{a, b, d, e})
						}
					}
				}
			}
			if c.Thorough {
				var rec func(l []g.Expression)
				rec = func(l []g.Expression) {
					if len(l) == 5 {
						list(l)
						return
					}
					for i := range ex {
						if i%2 == 1 || i == 2 {
							rec(append(l[:len(l):len(l)], ex[i]))
						}
					}
				}
				rec(nil)
			}
			// the corpus: all pairs, and triples
			var cdocs []docText
			for i, d := range corpusDocs() {
				cdocs = append(cdocs, docText{d, encode(d, layout{rev: i%2 == 1})})
			}
			cx := corpusExprs()
			for i, a := range cx {
				for j, b := range cx {
					listOn([]g.Expression{a, b}, 2, cdocs)
					for k, d := range cx {
						if c.Thorough || (i+j*2+k)%5 == 0 {
							listOn([]g.Expression{a, b, d}, 2, cdocs)
						}
					}
				}
			}
			for k := 0; k < 20; k++ {
				var l []g.Expression
				for i := 0; i < 5+k*2-k%2; i++ {
					l = append(l, ex[(i*(2*k+1)+k)%len(ex)])
				}
				list(l)
			}
		},
	})
}
