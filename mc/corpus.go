package main

import (
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

// A fixed corpus of expressions that together use every kind of condition, and documents on
// which they give varied verdicts.  Used by the checks that compare executions with each other.

func corpusExprs() []g.Expression {
	f, v := fld, vfld
	return []g.Expression{
		eq(f("a"), cst(1)),
		not(eq(f("a"), cst(1))),
		eq(f("s"), cst("xyz")),
		gt(f("s"), cst("a\"b")),
		eq(f("o", "k"), cst("é")),
		exists(f("o", "k")),
		notExists(f("o", "q")),
		eq(f("arr", "[1]"), cst(2)),
		eq(f("arr", "[0]", "k"), cst(true)),
		eq(f("a"), f("b")),
		lt(f("b"), f("a")),
		eq(f("s"), f("o", "k")),
		eq(f("o", "k"), f("o", "l")),
		le(fn(g.MathFuncAdd, f("a"), f("b")), cst(4)),
		eq(fn(g.MathFuncMul, f("a"), f("o", "n")), f("b")),
		gt(fn(g.MathFuncAbs, f("o", "n")), cst(1.5)),
		g.LikeExpr{Lhs: f("s"), Rhs: g.RegexExpr{Regex: "^x.*z$"}},
		g.LikeExpr{Lhs: f("o", "k"), Rhs: g.RegexExpr{Regex: "[é\"]"}},
		anyIn(1, f("arr"), eq(v(1), cst(2))),
		anyIn(1, f("arr"), eq(v(1, "k"), cst(true))),
		everyIn(1, f("arr"), exists(v(1, "k"))),
		anyEveryIn(1, f("nums"), gt(v(1), cst(0))),
		everyIn(1, f("nums"), not(eq(v(1), cst(2)))),
		anyIn(1, f("nums"), gt(v(1), f("a"))),
		anyIn(1, f("mat"), everyIn(2, v(1), gt(v(2), cst(0)))),
		everyIn(1, f("mat"), anyIn(2, v(1), eq(v(2), f("a")))),
		anyIn(1, f("arr"), and(eq(v(1, "k"), cst(true)), eq(v(1, "s"), cst("t\\u")))),
		and(eq(f("a"), cst(1)), or(eq(f("b"), cst(2)), exists(f("q")))),
		or(and(eq(f("a"), cst(2)), eq(f("b"), cst(2))), and(notExists(f("z")), not(eq(f("s"), cst("xyz"))))),
		eq(f("z"), cst(nil)),
		ne(f("z"), cst(nil)),
		eq(f("t"), cst(true)),
		and(eq(f("o", "k"), cst("é")), eq(f("o", "n"), cst(-2)), eq(f("s"), cst("xyz"))),
		ge(f("big"), cst(uint64(18446744073709551615))),
		lt(f("big"), cst(1e300)),
		eq(f("o", "p", "q", "[0]", "r"), cst(7)),
		exists(f("o", "p", "q")),
		g.TrueExpr{}, g.FalseExpr{},
		or(eq(fn(g.DateFunc, f("d")), g.TimeExpr{Time: "2020-02-29"}), eq(f("\tkey\"\\/"), cst(1))),
		and(anyIn(1, f("nums"), eq(v(1), cst(1))), anyIn(2, f("nums"), eq(v(2), cst(3)))),
		and(not(anyIn(1, f("nums"), eq(v(1), cst(5)))), not(exists(f("nums", "[3]")))),
		eq(f("\U0001F600"), cst("\U0001F600")),
		and(exists(f(longText)), not(eq(f("o", longText), cst(longText+"x")))),
		anyIn(1, f("arr"), or(eq(v(1, longText), f("s")), eq(v(1), f("o", longText)))),
	}
}

func corpusDocs() []*Val {
	k := func(x *Val, s string) *Val { return vObj("k", x, "s", vStr(s)) }
	return []*Val{
		vObj("a", vNum("1"), "b", vNum("2"), "s", vStr("xyz"), "nums", vArr(vNum("1"), vNum("2"), vNum("3"))),
		vObj("o", vObj("k", vStr("é"), "l", vStr("é"), "n", vNum("-2")), "a", vNum("-1"), "b", vNum("2"), "s", vStr("é")),
		vObj("arr", vArr(k(vBool(true), "t\\u"), vNum("2"), k(vBool(false), "]")), "s", vStr("xz"), "z", vNull()),
		vObj("mat", vArr(vArr(vNum("1"), vNum("2")), vArr(), vArr(vNum("-1"))), "a", vNum("1"), "t", vBool(true)),
		vObj("nums", vArr(), "mat", vArr(), "arr", vArr(), "o", vObj()),
		vObj("s", vStr("x\"\\\n/z"), "o", vObj("k", vStr("\"")), "d", vStr("2020-02-29")),
		vObj("big", vNum("18446744073709551615"), "\tkey\"\\/", vNum("1"), "a", vNum("2.0")),
		vObj("o", vObj("p", vObj("q", vArr(vObj("r", vNum("7"))))), "q", vBool(false), "z", vNum("0")),
		vObj("\U0001F600", vStr("\U0001F600"), "s", vStr("xé\U0001F600z")),
		vObj(), vArr(), vNum("1"), vStr("xyz"), vNull(),
		vObj("arr", vArr(k(vNum("1"), "q"), k(vBool(true), "q")), "nums", vArr(vNum("5"), vStr("1"), vArr(vNum("1")), vObj("a", vNum("1"))), "a", vNum("5"), "b", vNum("-1")),
		vObj(longText, vNum("1"), "s", vStr(longText), "o", vObj(longText, vStr(longText+"x"), "k", vStr("x"+longText)), "arr", vArr(vObj(longText, vStr(longText)), vStr(longText+"x"))),
		vObj("arr", vArr(vStr(longText+"x"), vObj("k", vStr(longText))), "o", vObj("zz"+longText, vNum("1"), longText, vStr(longText+"x"))),
		vObj("a", vObj("b", vNum("1")), "b", vArr(vNum("1")), "s", vArr(vStr("xyz")), "o", vStr("k"), "nums", vObj("[0]x", vNum("1"))),
	}
}

// longText is longer than any buffer that might be on a stack, and needs escapes.
var longText = strings.Repeat("ab\u00e9\"\n", 12) + "\U0001F600" + strings.Repeat("\\/z", 30)
