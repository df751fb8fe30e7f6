package main

import (
	"fmt"

	g "github.com/couchbaselabs/gojsonsm"
)

// c21Kinds: conditions of all kinds that a simplification might take for another one or for a constant,
// on documents with values of every kind at the fields they use.
func c21Kinds(c *Ctx, check func(x g.Expression, docs []docText) string) {
	texts := []string{"", "null", "false", "true", "0", "1", "-0", "2", "-1", "2.5", "10", "1e1", `""`, `"x"`, `"1"`, `"10"`, `"abc"`, `"ABC"`, `"xabcx"`, `"true"`, `"null"`, `"a\nb"`, `"2019-01-02"`, "[]", "[1]", `["abc",10]`, "{}", `{"k":1}`}
	var docs []docText
	add := func(a, b, k string, arr string) {
		v := vObj()
		put := func(key, t string) {
			if t != "" {
				v.Obj = append(v.Obj, Member{key, parseVal(t)})
			}
		}
		put("a", a)
		put("arr", arr)
		put("b", b)
		if k != "" {
			v.Obj = append(v.Obj, Member{"o", vObj("k", parseVal(k))})
		}
		docs = append(docs, docText{v, encode(v, layout{rev: len(docs)%2 == 1})})
	}
	arrs := []string{"[]", "[1]", `["abc"]`, `[null,"",2.5]`, `["10",10]`}
	for i, t := range texts {
		add(t, t, "1", arrs[i%len(arrs)])
		add(t, texts[(i+5)%len(texts)], texts[(i+11)%len(texts)], arrs[(i+2)%len(arrs)])
		add(t, "1", t, "")
		add(t, `"x"`, "", "["+texts[1+i%(len(texts)-1)]+"]")
	}
	f, v := fld, vfld
	a := f("a")
	consts := []g.Expression{cst(nil), cst(true), cst(false), cst(0), cst(1), cst(uint64(10)), cst(-1), cst(2.5), cst(0.0), cst(""), cst("x"), cst("10"), cst("abc"), cst("true"), g.TimeExpr{Time: "2019-01-02"}}
	add2 := func(n string, l ...g.Expression) g.Expression { return fn(n, l...) }
	funcs := []g.Expression{
		add2(g.MathFuncMul, a, cst(1)), add2(g.MathFuncMul, a, cst(0)), add2(g.MathFuncAdd, a, cst(0)), add2(g.MathFuncSub, a, a), add2(g.MathFuncSub, a, cst(0)), add2(g.MathFuncDiv, a, cst(1)), add2(g.MathFuncDiv, a, a),
		add2(g.MathFuncNeg, add2(g.MathFuncNeg, a)), add2(g.MathFuncAbs, a), add2(g.MathFuncAbs, add2(g.MathFuncAbs, a)), add2(g.MathFuncRound, a), add2(g.MathFuncPow, a, cst(1)), add2(g.MathFuncPow, a, cst(0)), add2(g.MathFuncMod, a, cst(1)),
		add2(g.MathFuncAdd, cst(1), cst(1)), add2(g.MathFuncMul, cst(2), cst(5)), add2(g.MathFuncSub, cst(1), cst(1)), add2(g.DateFunc, a),
	}
	var conds []g.Expression
	for _, op := range cmpOps {
		for _, k := range consts {
			conds = append(conds, op.mk(a, k), op.mk(k, a))
		}
		for _, x := range funcs {
			for _, y := range []g.Expression{cst(0), cst(1), cst(10), cst(2.5), a, f("b")} {
				conds = append(conds, op.mk(x, y))
			}
		}
		for _, y := range []g.Expression{a, f("b"), f("o", "k"), f("o")} {
			conds = append(conds, op.mk(a, y), op.mk(f("o", "k"), y))
		}
		for _, k := range []g.Expression{cst(0), cst(1), cst(2)} {
			for _, l := range []g.Expression{cst(1), cst(1.0)} {
				conds = append(conds, op.mk(k, l))
			}
		}
	}
	for _, p := range []string{"", "^", "$", "^$", ".", ".*", "^.*$", "^.+$", "^x", "x$", "^x$", "x", "^10$", "^1$", "10", "^abc$", "abc", "^abc", "(?i)abc", "(?i)^abc$", "^ABC$", "x|y", "^true$", "true", "^null$", "^2.5$", "^2\\.5$", "^\\[\\]$", "^(abc)$", "^[x]$", "^a$", "a\nb", "^2019-01-02$", "(?s)^a.b$", "^a.b$"} {
		like := g.LikeExpr{Lhs: a, Rhs: g.RegexExpr{Regex: p}}
		conds = append(conds, like, g.LikeExpr{Lhs: f("o", "k"), Rhs: g.RegexExpr{Regex: p}})
	}
	conds = append(conds, exists(a), notExists(a), exists(f("o", "k")), notExists(f("o", "k")), exists(f("o")), notExists(f("o")), exists(f("arr", "[0]")), notExists(f("arr", "[0]")))
	for i, x := range conds {
		x := x
		c.Do(func() string { return fmt.Sprintf("condition %d: %s", i, show(x)) }, func() string {
			for _, y := range []g.Expression{x, not(x), not(not(x)), and(g.TrueExpr{}, x), or(x, g.FalseExpr{}), and(x, x), or(not(x), eq(f("b"), cst(1)))} {
				if m := check(y, docs); m != "" {
					return m
				}
			}
			return ""
		})
	}
	// the same in loops over the array
	e := v(1)
	inLoop := func(x g.Expression) {
		for _, m := range loopModes {
			y := m(1, f("arr"), x)
			c.Do(func() string { return "loop: " + show(y) }, func() string {
				for _, z := range []g.Expression{y, not(y), m(1, f("arr"), not(x)), m(1, f("arr"), and(g.TrueExpr{}, not(not(x))))} {
					if m := check(z, docs); m != "" {
						return m
					}
				}
				return ""
			})
		}
	}
	for _, op := range cmpOps {
		for _, k := range consts {
			inLoop(op.mk(e, k))
		}
		inLoop(op.mk(e, e))
		inLoop(op.mk(e, a))
		inLoop(op.mk(add2(g.MathFuncMul, e, cst(1)), a))
	}
	for _, p := range []string{"", "^$", ".*", "^abc$", "^10$", "x|y", "^null$"} {
		inLoop(g.LikeExpr{Lhs: e, Rhs: g.RegexExpr{Regex: p}})
	}
	inLoop(exists(e))
	inLoop(notExists(e))
	inLoop(exists(a))
	inLoop(notExists(f("o", "k")))
}
