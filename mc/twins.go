package main

import (
	g "github.com/couchbaselabs/gojsonsm"
)

// twins are pairs of conditions that look alike (most are printed the same), but are not the same.
func twins() [][2]g.Expression {
	f, v := fld, vfld
	like := func(l g.Expression, p string) g.Expression {
		return g.LikeExpr{Lhs: l, Rhs: g.RegexExpr{Regex: p}}
	}
	var out [][2]g.Expression
	add := func(x, y g.Expression) { out = append(out, [2]g.Expression{x, y}) }
	add(eq(f("a.b"), cst(1)), eq(f("a", "b"), cst(1)))
	add(exists(f("a.b")), exists(f("a", "b")))
	add(eq(f("a", "[0]"), cst(1)), eq(f("a[0]"), cst(1)))
	add(eq(f("a", "b.c"), cst(1)), eq(f("a.b", "c"), cst(1)))
	add(eq(f("a"), cst(1)), eq(f("a"), cst("1")))
	add(eq(f("a"), cst(true)), eq(f("a"), cst("true")))
	add(eq(f("a"), cst(true)), eq(f("a"), cst(1)))
	add(eq(f("a"), cst(nil)), eq(f("a"), cst("<nil>")))
	add(eq(f("a"), cst(nil)), notExists(f("a")))
	add(eq(f("a"), cst(-1)), eq(f("a"), cst("-1")))
	add(eq(f("a"), cst(1)), eq(f("a"), cst(1.5)))
	add(eq(f("a"), cst("x")), eq(f("a"), cst("X")))
	add(eq(f("a"), cst("x")), eq(f("a"), cst("x ")))
	add(eq(f("a"), cst("x")), eq(f("A"), cst("x")))
	add(eq(f("a"), cst("")), eq(f("a"), cst(nil)))
	add(eq(f("a"), cst(1)), eq(f("aa"), cst(1)))
	add(eq(f("a"), f("b")), eq(f("a"), cst("$doc.b")))
	add(lt(f("a"), f("b")), lt(f("b"), f("a")))
	add(lt(f("a"), cst(2)), le(f("a"), cst(2)))
	add(eq(f("a"), cst(2)), ne(f("a"), cst(2)))
	add(lt(f("a"), cst(2)), gt(f("a"), cst(2)))
	add(eq(fn(g.MathFuncSub, f("a"), f("b")), cst(1)), eq(fn(g.MathFuncSub, f("b"), f("a")), cst(1)))
	add(eq(fn(g.MathFuncAdd, f("a"), f("b")), cst(3)), eq(fn(g.MathFuncMul, f("a"), f("b")), cst(3)))
	add(eq(fn(g.MathFuncAdd, f("a"), cst(1)), cst(3)), eq(fn(g.MathFuncAdd, f("a"), cst(2)), cst(3)))
	add(eq(fn(g.MathFuncAbs, f("a.b")), cst(1)), eq(fn(g.MathFuncAbs, f("a", "b")), cst(1)))
	add(like(f("a"), "x"), eq(f("a"), cst("/x/")))
	add(like(f("a"), "x"), like(f("a"), "X"))
	add(like(f("a"), "^x"), like(f("a"), "x$"))
	add(like(f("a.b"), "x"), like(f("a", "b"), "x"))
	add(eq(fn(g.DateFunc, f("d")), g.TimeExpr{Time: "2019-01-01"}), eq(f("d"), cst("2019-01-01")))
	add(eq(fn(g.DateFunc, f("d")), g.TimeExpr{Time: "2019-01-01"}), eq(fn(g.DateFunc, f("d")), g.TimeExpr{Time: "2019"}))
	add(anyIn(1, f("arr"), eq(v(1), cst(1))), everyIn(1, f("arr"), eq(v(1), cst(1))))
	add(anyEveryIn(1, f("arr"), eq(v(1), cst(1))), everyIn(1, f("arr"), eq(v(1), cst(1))))
	add(anyIn(1, f("arr"), eq(v(1), cst(1))), anyIn(1, f("arr"), eq(v(1), cst("1"))))
	add(anyIn(1, f("arr"), eq(v(1, "a"), cst(1))), anyIn(1, f("arr"), eq(f("a"), cst(1))))
	add(anyIn(1, f("arr"), eq(v(1, "a.b"), cst(1))), anyIn(1, f("arr"), eq(v(1, "a", "b"), cst(1))))
	add(anyIn(1, f("a.b"), eq(v(1), cst(1))), anyIn(1, f("a", "b"), eq(v(1), cst(1))))
	add(anyIn(1, f("arr"), anyIn(2, v(1), eq(v(2), cst(1)))), anyIn(1, f("arr"), anyIn(2, v(1), eq(v(1), cst(1)))))
	add(anyIn(1, f("arr"), anyIn(2, v(1), eq(v(2), cst(1)))), anyIn(1, f("arr"), everyIn(2, v(1), eq(v(2), cst(1)))))
	add(not(and(eq(f("a"), cst(1)), eq(f("b"), cst(2)))), and(not(eq(f("a"), cst(1))), eq(f("b"), cst(2))))
	add(not(or(eq(f("a"), cst(1)), eq(f("b"), cst(2)))), or(not(eq(f("a"), cst(1))), eq(f("b"), cst(2))))
	return out
}

func twinDocs() []docText {
	var out []docText
	for i, t := range []string{
		`{}`, `{"a.b":1}`, `{"a":{"b":1}}`, `{"a":{"b":1},"a.b":1}`, `{"a[0]":1}`, `{"a":[1]}`, `{"a":{"b.c":1}}`, `{"a.b":{"c":1}}`, `{"a":1}`, `{"a":"1","b":2}`, `{"a":true}`, `{"a":"true"}`, `{"a":null}`, `{"a":"<nil>"}`, `{"a":""}`,
		`{"a":-1}`, `{"a":"-1"}`, `{"a":1.5}`, `{"a":"x"}`, `{"a":"X"}`, `{"a":"x "}`, `{"A":"x"}`, `{"aa":1}`, `{"a":"$doc.b","b":1}`, `{"b":3,"a":2}`, `{"a":2,"b":1}`, `{"a":1,"b":2}`, `{"a":3,"b":1}`, `{"a":"/x/"}`, `{"a":"yx"}`, `{"a":"xy"}`, `{"a.b":"x"}`, `{"a":{"b":"x"}}`,
		`{"d":"2019-01-01"}`, `{"d":"2019"}`, `{"d":"2019-01-01T00:00:00Z","arr":[1]}`, `{"arr":[]}`, `{"arr":[1,2]}`, `{"arr":["1"]}`, `{"arr":["1",1]}`, `{"arr":[{"a":1}]}`, `{"arr":[0],"a":1}`, `{"arr":[{"a.b":1}]}`, `{"arr":[{"a":{"b":1}}]}`, `{"a.b":[1]}`, `{"a":{"b":[1]}}`, `{"arr":[[1]]}`, `{"arr":[[]]}`, `{"arr":[[1,2]]}`,
	} {
		v := parseVal(t)
		out = append(out, docText{v, encode(v, layout{ws: []string{"", " "}[i%2], rev: i%4 > 1})})
	}
	return out
}
