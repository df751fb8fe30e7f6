package main

import (
	"fmt"

	g "github.com/couchbaselabs/gojsonsm"
)

// c04Missing: functions within functions over several fields, with every set of the fields
// present, missing or of another type.
func c04Missing(c *Ctx) {
	un := []string{g.MathFuncNeg, g.MathFuncAbs, g.MathFuncRound, g.MathFuncCeil}
	bi := []string{g.MathFuncAdd, g.MathFuncMul, g.MathFuncSub, g.MathFuncPow, g.MathFuncAtan2}
	leaves := []g.Expression{fld("a"), fld("o", "b"), fld("c"), cst(2)}
	n := 0
	one := func(x g.Expression) g.Expression { n++; return fn(un[n%len(un)], x) }
	two := func(x, y g.Expression) g.Expression { n++; return fn(bi[n%len(bi)], x, y) }
	cross := func(xs, ys []g.Expression) (r []g.Expression) {
		for _, x := range xs {
			for _, y := range ys {
				r = append(r, two(x, y))
			}
		}
		return
	}
	ones := func(xs []g.Expression) (r []g.Expression) {
		for _, x := range xs {
			r = append(r, one(x))
		}
		return
	}
	t1 := append(ones(leaves), cross(leaves, leaves)...)
	t2 := append(append(ones(t1), cross(t1, leaves)...), cross(leaves, t1)...)
	t3 := append(append(append(ones(t2), cross(t2, leaves)...), cross(leaves, t2)...), cross(t1, t1)...)
	trees := append(append(append([]g.Expression{}, t1...), t2...), t3...)
	vals := map[string][]*Val{"a": {missing, vNum("3"), vStr("x")}, "b": {missing, vNum("-1"), vNull()}, "c": {missing, vNum("2"), vArr()}}
	var docs []docText
	for _, a := range vals["a"] {
		for _, b := range vals["b"] {
			for k, cc := range vals["c"] {
				var m, o []Member
				if a.K != KMissing {
					m = append(m, Member{"a", a})
				}
				if b.K != KMissing {
					o = append(o, Member{"b", b})
				}
				if k%2 == 0 || b.K != KMissing {
					m = append(m, Member{"o", &Val{K: KObj, Obj: o}})
				}
				if cc.K != KMissing {
					m = append(m, Member{"c", cc})
				}
				m = append(m, Member{"z", vNum("0")})
				d := &Val{K: KObj, Obj: m}
				docs = append(docs, docText{d, encode(d, layout{})}, docText{d, encode(d, layout{rev: true})})
			}
		}
	}
	const part = 20
	for from := 0; from < len(trees); from += part {
		from := from
		c.Do(func() string { return fmt.Sprintf("functions over missing fields from %s", show(trees[from])) }, func() string {
			for i := from; i < min(from+part, len(trees)); i++ {
				t := trees[i]
				for k, op := range cmpOps {
					if (i+k)%3 != 0 && !c.Thorough {
						continue
					}
					x := op.mk(t, fld("z"))
					switch (i + k) % 4 {
					case 1:
						x = op.mk(fld("z"), t)
					case 2:
						x = op.mk(t, cst(100))
					case 3:
						x = not(op.mk(fld("o", "b"), t))
					}
					if s := runDocs(c, x, docs); s != "" {
						return s
					}
				}
			}
			c.Outcome("functions over missing fields")
			c.NonTrivial()
			return ""
		})
	}
}
