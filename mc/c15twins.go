package main

import (
	"fmt"

	g "github.com/couchbaselabs/gojsonsm"
)

// feTwins are conditions whose texts differ in quotes, brackets or spelling only, or that mean nearly the same.
func feTwins() []feText {
	f := fld
	a := f("a")
	return []feText{
		feT(eq(a, f("b")), "a", "=", "b"), feT(eq(a, cst("b")), "a", "=", `"b"`), feT(eq(f("b"), a), "b", "=", "a"), feT(eq(f("a "), f("b")), "`a `", "=", "b"), feT(ne(a, f("b")), "a", "<>", "b"),
		feT(eq(a, cst(1)), "a", "=", "1"), feT(eq(a, cst("1")), "a", "=", `"1"`), feT(eq(a, cst(-1)), "a", "=", "-", "1"), feT(ge(a, cst(1)), "a", ">=", "1"), feT(gt(a, cst(1)), "a", ">", "1"), feT(eq(a, cst("-1")), "a", "=", `"-1"`),
		feT(not(eq(a, cst(1))), "NOT", "a", "=", "1"), feT(ne(a, cst(1)), "a", "!=", "1"), feT(eq(f("a=1"), cst(1)), "`a=1`", "=", "1"), feT(eq(a, cst("a=1")), "a", "=", `"a=1"`),
		feT(eq(f("a", "b"), cst(1)), "a", ".", "b", "=", "1"), feT(eq(f("a.b"), cst(1)), "`a.b`", "=", "1"), feT(eq(f("a", "b"), cst(1)), "`a`", ".", "`b`", "=", "1"), feT(eq(f("a", "[0]"), cst(1)), "a", "[", "0", "]", "=", "1"), feT(eq(f("a[0]"), cst(1)), "`a[0]`", "=", "1"), feT(eq(f("a", "[1]"), cst(1)), "a", "[", "1", "]", "=", "1"),
		feT(exists(a), "EXISTS", "(", "a", ")"), feT(exists(a), "a", "IS", "NOT", "MISSING"), feT(notExists(a), "a", "IS", "MISSING"), feT(eq(a, cst(nil)), "a", "IS", "NULL"), feT(not(eq(a, cst(nil))), "a", "IS", "NOT", "NULL"), feT(eq(a, cst("NULL")), "a", "=", `"NULL"`), feT(eq(a, cst("null")), "a", "=", `"null"`), feT(eq(f("a IS NULL"), cst(1)), "`a IS NULL`", "=", "1"),
		feT(eq(fn(g.MathFuncSub, a, f("b")), cst(1)), "a", "-", "b", "=", "1"), feT(eq(f("a - b"), cst(1)), "`a - b`", "=", "1"), feT(eq(f("a-b"), cst(1)), "`a-b`", "=", "1"), feT(eq(fn(g.MathFuncAbs, a), cst(1)), "ABS", "(", "a", ")", "=", "1"), feT(eq(f("ABS(a)"), cst(1)), "`ABS(a)`", "=", "1"), feT(eq(f("ABS", "a"), cst(1)), "ABS", ".", "a", "=", "1"), feT(eq(fn(g.MathFuncNeg, a), cst(1)), "-", "a", "=", "1"),
		feT(g.LikeExpr{Lhs: a, Rhs: g.RegexExpr{Regex: "b"}}, "REGEXP_CONTAINS", "(", "a", ",", `"b"`, ")"), feT(g.LikeExpr{Lhs: a, Rhs: g.RegexExpr{Regex: "B"}}, "REGEXP_CONTAINS", "(", "a", ",", `"B"`, ")"), feT(g.LikeExpr{Lhs: a, Rhs: g.RegexExpr{Regex: "^b$"}}, "REGEXP_CONTAINS", "(", "a", ",", `"^b$"`, ")"), feT(g.LikeExpr{Lhs: f("b"), Rhs: g.RegexExpr{Regex: "b"}}, "REGEXP_CONTAINS", "(", "b", ",", `"b"`, ")"),
		feT(eq(f("A"), f("b")), "A", "=", "b"), feT(eq(a, f("B")), "a", "=", "B"), feT(eq(a, cst("B")), "a", "=", `"B"`), feT(eq(a, cst(" b")), "a", "=", `" b"`), feT(eq(a, cst("")), "a", "=", `""`), feT(eq(a, cst(true)), "a", "=", "TRUE"), feT(eq(a, cst(false)), "a", "=", "FALSE"),
		feT(eq(a, cst(1.5)), "a", "=", "1.5"), feT(eq(a, cst("1.5")), "a", "=", `"1.5"`), feT(eq(fn(g.DateFunc, a), fn(g.DateFunc, cst("2019"))), "DATE", "(", "a", ")", "=", "DATE", "(", `"2019"`, ")"), feT(eq(a, cst("2019")), "a", "=", `"2019"`), feT(eq(a, cst(2019)), "a", "=", "2019"),
		feT(eq(fn(g.MathFuncPow, a, f("b")), cst(1)), "POW", "(", "a", ",", "b", ")", "=", "1"), feT(eq(fn(g.MathFuncPow, f("b"), a), cst(1)), "POW", "(", "b", ",", "a", ")", "=", "1"), feT(eq(fn(g.MathFuncAtan2, a, f("b")), cst(1)), "ATAN2", "(", "a", ",", "b", ")", "=", "1"),
		feT(eq(f("META()", "b"), cst(1)), "META", "(", ")", ".", "b", "=", "1"), feT(eq(f("META", "b"), cst(1)), "META", ".", "b", "=", "1"), feT(gt(a, cst(3.141592653589793)), "a", ">", "PI", "(", ")"), feT(gt(a, f("PI")), "a", ">", "PI"), feT(gt(a, cst(2.718281828459045)), "a", ">", "E", "(", ")"), feT(gt(a, f("E")), "a", ">", "E"),
	}
}

func spTwins() []spCond {
	f := fld
	a := f("a")
	c := func(x g.Expression, toks ...string) spCond { return spCond{toks, x} }
	return []spCond{
		c(eq(a, cst("b")), "a", "==", `"b"`), c(eq(a, cst("B")), "a", "==", `'B'`), c(ne(a, cst("b")), "a", "!=", `"b"`),
		c(eq(a, cst(1)), "a", "=", "1"), c(ne(a, cst(1)), "a", "!=", "1"), c(eq(a, cst(-1)), "a", "==", "-1"), c(ge(a, cst(1)), "a", ">=", "1"), c(gt(a, cst(1)), "a", ">", "1"), c(eq(f("a=1"), cst(1)), "`a=1`", "==", "1"), c(eq(a, cst("a=1")), "a", "==", `"a=1"`), c(eq(a, cst(1.5)), "a", "==", "1.5"),
		c(eq(f("a", "b"), cst(1)), "a.b", "==", "1"), c(eq(f("a.b"), cst(1)), "`a.b`", "==", "1"), c(eq(f("a", "[0]"), cst(1)), "a[0]", "==", "1"), c(eq(f("a[0]"), cst(1)), "`a[0]`", "==", "1"), c(eq(f("a", "[1]"), cst(1)), "a[1]", "==", "1"),
		c(exists(a), "a", "EXISTS"), c(exists(f("b")), "b", "EXISTS"), c(notExists(a), "a", "IS", "MISSING"), c(eq(a, cst(nil)), "a", "IS", "NULL"), c(ne(a, cst(nil)), "a", "IS", "NOT", "NULL"), c(eq(a, cst("NULL")), "a", "==", `"NULL"`), c(eq(f("a IS NULL"), cst(1)), "`a IS NULL`", "==", "1"),
		c(eq(fn(g.MathFuncAbs, a), cst(1)), "ABS(a)", "==", "1"), c(eq(f("ABS(a)"), cst(1)), "`ABS(a)`", "==", "1"), c(eq(f("a-b"), cst(1)), "a-b", "==", "1"), c(eq(f("a - b"), cst(1)), "`a - b`", "==", "1"), c(eq(f("a || b"), cst(1)), "`a || b`", "==", "1"),
		c(g.LikeExpr{Lhs: a, Rhs: g.RegexExpr{Regex: "b"}}, "a", "LIKE", `"b"`), c(g.LikeExpr{Lhs: a, Rhs: g.RegexExpr{Regex: "B"}}, "a", "=~", `"B"`), c(not(g.LikeExpr{Lhs: a, Rhs: g.RegexExpr{Regex: "b"}}), "a", "NOT", "LIKE", `"b"`), c(g.LikeExpr{Lhs: f("b"), Rhs: g.RegexExpr{Regex: "b"}}, "b", "LIKE", `"b"`),
		c(eq(f("A"), cst(5)), "A", "==", "5"), c(eq(f("b"), cst(5)), "b", "==", "5"), c(eq(f("a "), cst(5)), "`a `", "==", "5"), c(eq(a, cst(" b")), "a", "==", `" b"`), c(eq(a, cst("")), "a", "==", `""`), c(eq(a, cst(true)), "a", "==", "true"), c(eq(a, cst(false)), "a", "==", "false"),
		c(eq(fn(g.MathFuncPow, a, cst(2)), cst(1)), "POW(a,2)", "==", "1"), c(eq(fn(g.MathFuncPow, cst(2), a), cst(1)), "POW(2,a)", "==", "1"), c(eq(fn(g.MathFuncAtan2, a, f("b")), cst(1)), "ATAN2(a,b)", "==", "1"), c(eq(fn(g.MathFuncAtan2, f("b"), a), cst(1)), "ATAN2(b,a)", "==", "1"),
		c(eq(fn(g.DateFunc, a), fn(g.DateFunc, cst("2019"))), "DATE(a)", "==", `DATE("2019")`), c(eq(a, cst("x && b")), "a", "==", `"x && b"`),
	}
}

// fieldTwinDocs tell the twins apart.
func fieldTwinDocs() []docText {
	var out []docText
	for i, t := range []string{
		`{}`, `{"a":1}`, `{"a":"1"}`, `{"a":-1}`, `{"a":"-1"}`, `{"a":"b"}`, `{"a":"B"}`, `{"a":" b"}`, `{"a":""}`, `{"a":null}`, `{"a":"NULL"}`, `{"a":"null"}`, `{"a":true}`, `{"a":false}`, `{"a":1.5}`, `{"a":"1.5"}`, `{"a":"a=1"}`, `{"a":"2019"}`, `{"a":2019}`, `{"a":"2019-01-01"}`,
		`{"a":2,"b":2}`, `{"b":2,"a":1}`, `{"a":"x","b":"x"}`, `{"a":"b","b":"c"}`, `{"a ":5,"b":5}`, `{"A":5,"b":5}`, `{"a":5,"B":5}`, `{"a":1,"B":1}`, `{"b":"b"}`, `{"b":"ab","a":"x"}`,
		`{"a":{"b":1}}`, `{"a.b":1}`, `{"a":[1,2]}`, `{"a":[2,1]}`, `{"a[0]":1}`, `{"a":{"[0]":1}}`, `{"a=1":1}`, `{"a IS NULL":1,"a":2}`, `{"a - b":1}`, `{"a-b":1}`, `{"ABS(a)":1}`, `{"ABS":{"a":1}}`, `{"a || b":1}`, `{"a":"x && b"}`,
		`{"a":0,"b":1}`, `{"a":1,"b":0}`, `{"a":3,"b":2}`, `{"a":3,"b":0}`, `{"META()":{"b":1}}`, `{"META":{"b":1}}`, `{"a":3,"PI":1,"E":5}`, `{"a":3.5,"PI":5,"E":1}`, `{"a":2.5,"E":1}`, `{"a":4,"E":5,"PI":5}`, `{"a":0.5463024898437905,"b":1}`,
	} {
		v := parseVal(t)
		out = append(out, docText{v, encode(v, layout{ws: []string{"", " "}[i%2], rev: i%3 == 2})})
	}
	return out
}

// c15Twins joins all pairs of texts that look alike.
func c15Twins(c *Ctx, one func(t feText, mode int, docs []docText)) {
	docs := fieldTwinDocs()
	tw := feTwins()
	j := func(l ...[]string) (out []string) {
		for _, x := range l {
			out = append(out, x...)
		}
		return
	}
	w := func(s ...string) []string { return s }
	neg := func(t feText) feText {
		if t.toks[0] == "NOT" {
			return t
		}
		return feText{j(w("NOT"), t.toks), not(t.x)}
	}
	for i, x := range tw {
		one(x, i%4, docs)
		for k, y := range tw {
			m := (i + k) % 4
			z := tw[(i*7+k*3+1)%len(tw)]
			one(feText{j(x.toks, w("OR"), y.toks), or(x.x, y.x)}, m, docs)
			one(feText{j(x.toks, w("AND"), y.toks), and(x.x, y.x)}, (m+1)%4, docs)
			one(feText{j(x.toks, w("AND"), neg(y).toks), and(x.x, neg(y).x)}, (m+2)%4, docs)
			one(feText{j(x.toks, w("OR"), y.toks, w("OR"), x.toks), or(x.x, y.x, x.x)}, (m+3)%4, docs)
			one(feText{j(neg(x).toks, w("AND"), z.toks, w("OR"), y.toks), or(and(neg(x).x, z.x), y.x)}, m, docs)
			if c.Thorough || (i+k)%2 == 0 {
				one(feText{j(x.toks, w("AND", "("), y.toks, w("OR"), z.toks, w(")")), and(x.x, or(y.x, z.x))}, m, docs)
				one(feText{j(w("("), x.toks, w("AND"), y.toks, w(")", "OR", "("), x.toks, w("AND"), z.toks, w(")")), or(and(x.x, y.x), and(x.x, z.x))}, (m+1)%4, docs)
			}
		}
	}
}

func c17Twins(c *Ctx) {
	docs := fieldTwinDocs()
	tw := spTwins()
	ops := []string{"&&", "||", "AND", "OR"}
	mk := func(op string, x, y g.Expression) g.Expression {
		if op == "&&" || op == "AND" {
			return and(x, y)
		}
		return or(x, y)
	}
	n := 0
	one := func(want g.Expression, parts ...[]string) {
		var toks []string
		for _, p := range parts {
			toks = append(toks, p...)
		}
		n++
		text := spText(toks, []int{0, 2}[n%2])
		c.Do(func() string { return "twins " + text }, func() string {
			c.Trans(1)
			c.State(text)
			x, err, msg := spParse(text)
			if msg != "" || err != nil {
				return fmt.Sprintf("%q: %s, error %v", text, msg, err)
			}
			cm := compile(x)
			for _, d := range docs {
				c.Trace()
				if msg := checkDoc(c, want, cm, d.v, d.text); msg != "" {
					return fmt.Sprintf("%q: %s", text, msg)
				}
			}
			c.NonTrivial()
			c.Outcome("twins")
			return ""
		})
	}
	for i, x := range tw {
		one(x.x, x.toks)
		for k, y := range tw {
			for o, op := range ops {
				if !c.Thorough && (o+i+k)%2 == 1 {
					continue
				}
				one(mk(op, x.x, y.x), x.toks, []string{op}, y.toks)
			}
			a, b := ops[(i+k)%4], ops[(i+k*3+1)%4]
			z := tw[(i*5+k*3+1)%len(tw)]
			one(mk(b, mk(a, x.x, y.x), x.x), x.toks, []string{a}, y.toks, []string{b}, x.toks)
			one(mk(b, mk(a, x.x, z.x), y.x), x.toks, []string{a}, z.toks, []string{b}, y.toks)
		}
	}
}
