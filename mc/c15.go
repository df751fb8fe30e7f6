package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

// feText is a piece of filter text, as tokens, with what it means.
type feText struct {
	toks []string
	x    g.Expression
}

func feT(x g.Expression, toks ...string) feText { return feText{toks, x} }

func wordEnd(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

// feJoin writes tokens with different spacing: 0 one blank between all, 1 as little as possible, 2 much and mixed,
// 3 a comment between any two tokens.
func feJoin(toks []string, mode int) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 {
			last := toks[i-1]
			switch mode {
			case 0:
				b.WriteByte(' ')
			case 1:
				l, f := last[len(last)-1], t[0]
				if wordEnd(l) && wordEnd(f) || l == '/' && (f == '/' || f == '*') || l == '.' && f >= '0' && f <= '9' || l >= '0' && l <= '9' && f == '.' {
					b.WriteByte(' ')
				}
			case 2:
				b.WriteString([]string{"  ", "\t", "\n", " \r\n "}[i%4])
			case 3:
				if last == "/" {
					b.WriteByte(' ')
				}
				b.WriteString("/* x */")
			}
		}
		b.WriteString(t)
	}
	if mode == 2 {
		return "\n " + b.String() + "\t "
	}
	return b.String()
}

var feOps = []struct {
	toks []string
	mk   func(l, r g.Expression) g.Expression
}{
	{[]string{"="}, eq}, {[]string{"=="}, eq}, {[]string{"!="}, ne}, {[]string{"<>"}, ne}, {[]string{"<"}, lt}, {[]string{"<="}, le}, {[]string{">"}, gt}, {[]string{">="}, ge},
}

// feFields are left and right sides that denote a part of the document.
func feFields() []feText {
	f := fld
	return []feText{
		feT(f("a"), "a"), feT(f("b"), "b"), feT(f("s"), "s"), feT(f("o", "k"), "o", ".", "k"), feT(f("o", "p", "q"), "o", ".", "p", ".", "q"),
		feT(f("arr", "[0]"), "arr", "[", "0", "]"), feT(f("arr", "[1]", "k"), "arr", "[", "1", "]", ".", "k"), feT(f("mat", "[1]", "[0]"), "mat", "[", "1", "]", "[", "0", "]"),
		feT(f("x y"), "`x y`"), feT(f("b.c"), "`b.c`"), feT(f("o", "x-y", "[0]"), "`o`", ".", "`x-y`", "[", "0", "]"), feT(f("AND"), "`AND`"), feT(f("e"), "'e'"),
		feT(f("_u1"), "_u1"), feT(f("é"), "é"), feT(f("META()", "id"), "META", "(", ")", ".", "id"), feT(f("Null"), "Null"), feT(f("ABSx"), "ABSx"),
	}
}

func feMath() []feText {
	f := fld
	n := func(name string, p ...g.Expression) g.Expression { return fn(name, p...) }
	a, b, k := f("a"), f("b"), f("o", "k")
	add, sub, mul, div, mod, neg := g.MathFuncAdd, g.MathFuncSub, g.MathFuncMul, g.MathFuncDiv, g.MathFuncMod, g.MathFuncNeg
	return []feText{
		feT(n(neg, a), "-", "a"), feT(n(add, a, cst(1)), "a", "+", "1"), feT(n(sub, a, cst(1)), "a", "-", "1"), feT(n(mul, a, cst(2)), "a", "*", "2"),
		feT(n(div, a, cst(2)), "a", "/", "2"), feT(n(mod, a, cst(2)), "a", "%", "2"), feT(n(add, a, cst(-1)), "a", "+", "-", "1"), feT(n(sub, a, cst(-1.5)), "a", "-", "-", "1.5"),
		feT(n(add, a, b), "a", "+", "b"), feT(n(sub, a, b), "a", "-", "b"), feT(n(sub, b, a), "b", "-", "a"), feT(n(div, b, a), "b", "/", "a"), feT(n(mul, k, a), "o", ".", "k", "*", "a"),
		feT(n(sub, n(add, a, cst(1)), cst(2)), "a", "+", "1", "-", "2"), feT(n(sub, n(sub, a, b), cst(1)), "a", "-", "b", "-", "1"), feT(n(add, n(sub, a, cst(1)), k), "a", "-", "1", "+", "o", ".", "k"),
		feT(n(add, a, n(mul, b, cst(2))), "a", "+", "b", "*", "2"), feT(n(sub, a, n(div, b, cst(2))), "a", "-", "b", "/", "2"), feT(n(add, n(mul, a, b), cst(1)), "a", "*", "b", "+", "1"),
		feT(n(div, n(div, a, cst(2)), cst(2)), "a", "/", "2", "/", "2"), feT(n(mul, n(div, b, cst(2)), cst(2)), "b", "/", "2", "*", "2"), feT(n(add, n(sub, a, n(mul, n(mul, b, cst(2)), k)), cst(1)), "a", "-", "b", "*", "2", "*", "o", ".", "k", "+", "1"),
		feT(n(sub, n(neg, a), n(neg, b)), "-", "a", "-", "-", "b"), feT(n(sub, n(add, a, n(mod, b, cst(2))), n(mul, k, cst(3))), "a", "+", "b", "%", "2", "-", "o", ".", "k", "*", "3"),
	}
}

// value op field: left sides only
func feMathLeft() []feText {
	f := fld
	return []feText{
		feT(fn(g.MathFuncSub, cst(5), f("a")), "5", "-", "a"), feT(fn(g.MathFuncAdd, cst(1.5), f("a")), "1.5", "+", "a"), feT(fn(g.MathFuncMul, cst(2), f("o", "k")), "2", "*", "o", ".", "k"),
		feT(fn(g.MathFuncDiv, cst(6), f("b")), "6", "/", "b"), feT(fn(g.MathFuncMod, cst(7), f("b")), "7", "%", "b"),
	}
}

func feFuncs() []feText {
	f := fld
	var out []feText
	names := []struct{ text, name string }{{"ABS", g.MathFuncAbs}, {"ACOS", g.MathFuncAcos}, {"ASIN", g.MathFuncAsin}, {"ATAN", g.MathFuncAtan}, {"CEIL", g.MathFuncCeil}, {"COS", g.MathFuncCos}, {"DEGREES", g.MathFuncDegrees},
		{"EXP", g.MathFuncExp}, {"FLOOR", g.MathFuncFloor}, {"LOG", g.MathFuncLog}, {"LN", g.MathFuncLn}, {"SIN", g.MathFuncSin}, {"TAN", g.MathFuncTan}, {"RADIANS", g.MathFuncRadians}, {"ROUND", g.MathFuncRound}, {"SQRT", g.MathFuncSqrt}}
	for _, n := range names {
		out = append(out, feT(fn(n.name, f("a")), n.text, "(", "a", ")"))
	}
	return append(out,
		feT(fn(g.MathFuncAtan2, f("a"), f("b")), "ATAN2", "(", "a", ",", "b", ")"), feT(fn(g.MathFuncPow, f("a"), f("b")), "POW", "(", "a", ",", "b", ")"),
		feT(fn(g.MathFuncPow, f("b"), f("a")), "POW", "(", "b", ",", "a", ")"),
		feT(fn(g.MathFuncPow, fn(g.MathFuncPow, f("a"), f("b")), f("b")), "POW", "(", "POW", "(", "a", ",", "b", ")", ",", "b", ")"),
		feT(fn(g.MathFuncPow, f("a"), fn(g.MathFuncAbs, f("b"))), "POW", "(", "a", ",", "ABS", "(", "b", ")", ")"),
		feT(fn(g.MathFuncAbs, fn(g.MathFuncNeg, f("a"))), "ABS", "(", "-", "a", ")"), feT(fn(g.MathFuncNeg, fn(g.MathFuncAbs, f("a"))), "-", "ABS", "(", "a", ")"),
		feT(fn(g.MathFuncFloor, fn(g.MathFuncDiv, f("a"), cst(2))), "FLOOR", "(", "a", "/", "2", ")"), feT(fn(g.MathFuncAbs, fn(g.MathFuncSub, f("o", "k"), f("b"))), "ABS", "(", "o", ".", "k", "-", "b", ")"),
		feT(fn(g.MathFuncCeil, fn(g.MathFuncFloor, fn(g.MathFuncAbs, f("arr", "[0]")))), "CEIL", "(", "FLOOR", "(", "ABS", "(", "arr", "[", "0", "]", ")", ")", ")"),
		feT(cst(math.Pi), "PI", "(", ")"), feT(cst(math.E), "E", "(", ")"), feT(fn(g.MathFuncNeg, cst(math.E)), "-", "E", "(", ")"),
		feT(fn(g.DateFunc, f("d")), "DATE", "(", "d", ")"),
	)
}

func feValues() []feText {
	v := func(x interface{}, toks ...string) feText { return feT(cst(x), toks...) }
	return []feText{
		v(1, "1"), v(0, "0"), v(2, "2"), v(-2, "-", "2"), v(16, "0x10"), v(8, "010"), v(math.MaxInt64, "9223372036854775807"), v(2.5, "2.5"), v(-2.5, "-", "2.5"), v(100.0, "1e2"), v(0.5, ".5"), v(1.0, "1."), v(0.025, "2.5E-2"),
		v("x", `"x"`), v("", `""`), v("1", `"1"`), v("x y", `"x y"`), v("é", `"é"`), v("é", `"\u00e9"`), v("é", `"\xc3\xa9"`), v("a\"b\\\n", `"a\"b\\\n"`), v("2019-01-01", `"2019-01-01"`), v("AND", `"AND"`), v("😀", `"\U0001F600"`), v("a = 1", `"a = 1"`), v("null", `"null"`),
		v(true, "TRUE"), v(true, "true"), v(false, "FALSE"), v(false, "false"),
	}
}

func feDates() []feText {
	d := func(s string) g.Expression { return fn(g.DateFunc, cst(s)) }
	return []feText{
		feT(d("2019"), "DATE", "(", `"2019"`, ")"), feT(d("2019-02"), "DATE", "(", `"2019-02"`, ")"), feT(d("2019/02/03"), "DATE", "(", `"2019/02/03"`, ")"), feT(d("2019-01-18T01:02:03Z"), "DATE", "(", `"2019-01-18T01:02:03Z"`, ")"), feT(d("2019-01-18T01:02:03.5+05:30"), "DATE", "(", `"2019-01-18T01:02:03.5+05:30"`, ")"),
	}
}

// conditions that are no comparisons
func feChecks() []feText {
	f := fld
	var out []feText
	for _, x := range []feText{feT(f("a"), "a"), feT(f("o", "k"), "o", ".", "k"), feT(f("arr", "[1]"), "arr", "[", "1", "]"), feT(f("x y"), "`x y`"), feT(f("zz"), "zz")} {
		w := func(t ...string) []string { return append(append([]string{}, x.toks...), t...) }
		out = append(out, feText{w("IS", "NULL"), eq(x.x, cst(nil))}, feText{w("IS", "NOT", "NULL"), not(eq(x.x, cst(nil)))},
			feText{w("IS", "MISSING"), notExists(x.x)}, feText{w("IS", "NOT", "MISSING"), exists(x.x)},
			feText{append(append([]string{"EXISTS", "("}, x.toks...), ")"), exists(x.x)})
		for _, p := range []struct{ tok, pat string }{{`"x"`, "x"}, {`"^[a-c]+$"`, "^[a-c]+$"}, {`"\\d"`, `\d`}, {`"é|y"`, "é|y"}, {`""`, ""}, {`"(?i)X"`, "(?i)X"}} {
			out = append(out, feText{append(append([]string{"REGEXP_CONTAINS", "("}, x.toks...), ",", p.tok, ")"), g.LikeExpr{Lhs: x.x, Rhs: g.RegexExpr{Regex: p.pat}}})
		}
	}
	// of parts that are computed
	out = append(out, feT(eq(fn(g.MathFuncAdd, f("a"), cst(1)), cst(nil)), "a", "+", "1", "IS", "NULL"))
	out = out[:len(out)-1]
	return append(out, feT(g.TrueExpr{}, "TRUE"), feT(g.FalseExpr{}, "FALSE"), feT(g.TrueExpr{}, "true"), feT(g.FalseExpr{}, "false"))
}

func c15Docs() []*Val {
	var out []*Val
	as := []*Val{vNum("1"), vNum("-2"), vNum("2.5"), vNum("0"), vStr("x"), vStr("1"), vBool(true), vNull(), nil, vNum("16"), vStr("é"), vNum("100")}
	for i, a := range as {
		b := vNum([]string{"1", "3", "2", "-1.5"}[i%4])
		o := vObj("k", vNum([]string{"2", "1", "-2.5"}[i%3]), "p", vObj("q", []*Val{vStr("x"), vNum("2.5"), vBool(false), vStr("a\"b\\\n")}[i%4]), "x-y", vArr(vNum("1"), vStr("x")))
		v := vObj()
		add := func(k string, x *Val) {
			if x != nil {
				v.Obj = append(v.Obj, Member{k, x})
			}
		}
		add("b", b)
		add("s", []*Val{vStr("x"), vStr("AND"), vStr("a = 1"), vStr(""), vStr("x y"), vStr("😀"), vStr("null")}[i%7])
		add("a", a)
		add("o", o)
		if i%4 != 3 {
			add("arr", vArr([]*Val{vNum("1"), vNum("-2.5"), vStr("é")}[i%3], vObj("k", []*Val{vNum("2"), vStr("x")}[i%2], "[0]", vNum("9"))))
			add("mat", vArr(vNum("1"), vArr(vNum([]string{"1", "8"}[i%2]))))
		}
		add("x y", []*Val{vStr("abc"), vNum("2"), vNull()}[i%3])
		add("b.c", vNum([]string{"1", "16"}[i%2]))
		add("AND", []*Val{vBool(true), vStr("true?"), vNum("0")}[i%3])
		add("e", []*Val{vNum("2.5"), vStr("x")}[i%2])
		add("_u1", []*Val{vNum("-2"), vStr("1")}[i%2])
		add("é", []*Val{vNum("1"), vStr("é")}[i%2])
		add("META()", vObj("id", []*Val{vStr("x"), vNum("1"), vNull()}[i%3]))
		add("Null", vNum([]string{"1", "2"}[i%2]))
		add("ABSx", vNum("0.025"))
		add("d", []*Val{vStr("2019"), vStr("2019-01-18 01:02:03"), vStr("2019-02-03"), vStr("2019-01-18T01:02:03.5+05:30"), vStr("nothing"), vNum("5")}[i%6])
		out = append(out, v)
	}
	return out
}

// c15RoleDocs have numbers in all the fields of feRoles.
func c15RoleDocs() []*Val {
	var out []*Val
	n := []string{"1", "-2.5", "2", "0", "-1", "7", "3.5", "-2"}
	at := func(i int) *Val { return vNum(n[i%len(n)]) }
	for i := 0; i < 6; i++ {
		v := vObj("a", at(i), "b", at(i*3+1), "o", vObj("k", at(i+2), "p", vObj("q", at(i*5+3)), "x-y", vArr(at(i+4), vNum("1"))), "arr", vArr(at(i*3+5), vObj("k", at(i+6))),
			"mat", vArr(vNum("1"), vArr(at(i*5+2), at(i)), vArr(vArr(vNum("1")))), "x y", at(i+1), "AND", at(i*7+3), "META()", vObj("id", at(i+3)), "d", vStr("x"))
		if i == 4 {
			v = vObj("a", vStr("x"), "b", vNum("1"), "o", vObj("k", vNull()), "arr", vArr(vStr("x")), "mat", vArr(vNum("1"), vArr(vStr("x"))))
		} else if i == 5 {
			v = vObj("b", vNum("-2.5"), "o", vNum("1"), "arr", vObj("[0]", vNum("1")), "mat", vArr(vNum("2"), vNum("1")))
		}
		out = append(out, v)
	}
	return out
}

type feRole struct {
	t        feText
	leftOnly bool
}

// feRoles are operands in which every kind of field is at every place a field can be at.
func feRoles(all bool) []feRole {
	var out []feRole
	f := fld
	fields := []feText{feT(f("a"), "a"), feT(f("o", "k"), "o", ".", "k"), feT(f("o", "p", "q"), "o", ".", "p", ".", "q"), feT(f("arr", "[0]"), "arr", "[", "0", "]"), feT(f("arr", "[1]", "k"), "arr", "[", "1", "]", ".", "k"),
		feT(f("mat", "[1]", "[0]"), "mat", "[", "1", "]", "[", "0", "]"), feT(f("x y"), "`x y`"), feT(f("o", "x-y", "[0]"), "`o`", ".", "`x-y`", "[", "0", "]"), feT(f("META()", "id"), "META", "(", ")", ".", "id"), feT(f("mat", "[2]", "[0]", "[0]"), "mat", "[", "2", "]", "[", "0", "]", "[", "0", "]")}
	cat := func(t ...[]string) []string {
		var o []string
		for _, x := range t {
			o = append(o, x...)
		}
		return o
	}
	neg := func(t feText) feText { return feText{cat([]string{"-"}, t.toks), fn(g.MathFuncNeg, t.x)} }
	var signed []feText
	for _, x := range fields {
		signed = append(signed, x, neg(x))
	}
	values := []feText{feT(cst(1), "1"), feT(cst(-2), "-", "2"), feT(cst(2.5), "2.5"), feT(cst(-0.5), "-", "0.5"), feT(cst(10.0), "1e1"), feT(cst(0), "0")}
	ops := []struct{ tok, name string }{{"+", g.MathFuncAdd}, {"-", g.MathFuncSub}, {"*", g.MathFuncMul}, {"/", g.MathFuncDiv}, {"%", g.MathFuncMod}}
	var arith []feText
	bin := func(l feText, o int, r feText) feText {
		return feText{cat(l.toks, []string{ops[o].tok}, r.toks), fn(ops[o].name, l.x, r.x)}
	}
	for i, x := range signed {
		arith = append(arith, x)
		for o := range ops {
			for j, v := range values {
				if !all && (i+j+o)%3 != 0 {
					continue
				}
				if o == 4 && (j == 2 || j == 3 || j == 4) {
					continue // remainders of integers only
				}
				arith = append(arith, bin(x, o, v))
				out = append(out, feRole{bin(v, o, x), true})
			}
			for j, y := range signed {
				if o != 4 && (all || (i+j+o)%4 == 0) {
					arith = append(arith, bin(x, o, y))
				}
			}
		}
		// three operands: precedence and grouping
		for o := range ops[:4] {
			for p := range ops[:4] {
				y, z := signed[(i+3)%len(signed)], values[(i+o+p)%len(values)]
				t := bin(bin(x, o, y), p, z)
				if o < 2 && p > 1 {
					t = feText{t.toks, fn(ops[o].name, x.x, fn(ops[p].name, y.x, z.x))}
				}
				arith = append(arith, t)
			}
		}
	}
	for _, a := range arith {
		out = append(out, feRole{a, false})
	}
	names := []struct{ text, name string }{{"ABS", g.MathFuncAbs}, {"CEIL", g.MathFuncCeil}, {"FLOOR", g.MathFuncFloor}, {"ROUND", g.MathFuncRound}, {"SQRT", g.MathFuncSqrt}, {"SIN", g.MathFuncSin}, {"DEGREES", g.MathFuncDegrees}}
	call := func(name, sym string, a ...feText) feText {
		toks := []string{name, "("}
		var xs []g.Expression
		for i, x := range a {
			if i > 0 {
				toks = append(toks, ",")
			}
			toks = append(toks, x.toks...)
			xs = append(xs, x.x)
		}
		return feText{append(toks, ")"), fn(sym, xs...)}
	}
	for i, a := range arith {
		for j, n := range names {
			if all || (i+j)%len(names) == 0 || i < 40 {
				t := call(n.text, n.name, a)
				out = append(out, feRole{t, false}, feRole{neg(t), false})
				if (i+j)%5 == 0 {
					out = append(out, feRole{call("ABS", g.MathFuncAbs, neg(t)), false})
				}
			}
		}
	}
	for i, a := range signed {
		for j, b := range append(append([]feText{}, signed...), values...) {
			if all || (i+j)%3 == 0 {
				out = append(out, feRole{call("POW", g.MathFuncPow, a, b), false}, feRole{neg(call("ATAN2", g.MathFuncAtan2, b, a)), false}, feRole{call("POW", g.MathFuncPow, call("ABS", g.MathFuncAbs, a), b), false})
			}
		}
	}
	return out
}

// feCheck parses a text in a given spacing and compares with the meaning.
func feCheck(c *Ctx, t feText, mode int, docs []docText) string {
	text := feJoin(t.toks, mode)
	m, err := g.GetFilterExpressionMatcher(text)
	if err != nil {
		return fmt.Sprintf("%q: error %v", text, err)
	}
	yes, no := false, false
	if mode%2 == 0 {
		// the expression can be asked for several times, and be compiled with others
		_, fe, err := g.NewFilterExpressionParser(text)
		if err != nil {
			return fmt.Sprintf("%q: error %v when parsed again", text, err)
		}
		x1, err1 := fe.OutputExpression()
		x2, err2 := fe.OutputExpression()
		if err1 != nil || err2 != nil || dumpE(x1) != dumpE(x2) {
			return fmt.Sprintf("%q: two outputs of one parse differ: %v and %v (errors %v, %v)", text, x1, x2, err1, err2)
		}
		cm := compile(x1, g.FalseExpr{}, x2)
		for _, d := range docs {
			want, known, _ := meaning(t.x, d.v)
			cm.m.Reset()
			c.Trans(1)
			if o := cm.run(d.text, 3); known && (o.err || o.each != map[bool]string{true: "101", false: "000"}[want]) {
				return fmt.Sprintf("%q, that is %s, twice, on %s: got %v, should be %v", text, show(t.x), d.text, o, want)
			}
		}
	}
	for _, d := range docs {
		want, known, _ := meaning(t.x, d.v)
		if !known {
			c.Note("unspecified")
			continue
		}
		c.State(text, string(d.text))
		c.Trans(1)
		m.Reset()
		got, err := m.Match(d.text)
		if err != nil || got != want {
			return fmt.Sprintf("%q, that is %s, on %s: got %v (error %v), should be %v", text, show(t.x), d.text, got, err, want)
		}
		yes, no = yes || want, no || !want
	}
	if yes && no {
		c.NonTrivial()
	}
	return ""
}

// feTrees calls f with every combination of the leaves, in this order, by AND and OR with as few
// parentheses as possible (extra = more of them).
func feTrees(leaves []feText, f func(t feText)) {
	type node struct {
		t    feText
		prec int // 2 leaf, 1 AND, 0 OR
	}
	par := func(n node) []string {
		return append(append([]string{"("}, n.t.toks...), ")")
	}
	var rec func(lo, hi int) []node
	rec = func(lo, hi int) []node {
		if hi-lo == 1 {
			l := leaves[lo]
			return []node{{l, 2}}
		}
		var out []node
		for k := lo + 1; k < hi; k++ {
			for _, l := range rec(lo, k) {
				for _, r := range rec(k, hi) {
					for op := 0; op < 2; op++ {
						lt, rt := l.t.toks, r.t.toks
						if l.prec < op {
							lt = par(l)
						}
						if r.prec < op {
							rt = par(r)
						}
						word := []string{"OR", "AND"}[op]
						x := or(l.t.x, r.t.x)
						if op == 1 {
							x = and(l.t.x, r.t.x)
						}
						out = append(out, node{feText{append(append(append([]string{}, lt...), word), rt...), x}, op})
						// redundant parentheses
						if hi-lo <= 3 && (l.prec >= op && l.prec < 2 || r.prec >= op && r.prec < 2 || hi-lo == 2) {
							out = append(out, node{feText{append(append(append([]string{}, par(l)...), word), par(r)...), x}, op})
						}
					}
				}
			}
		}
		return out
	}
	for _, n := range rec(0, len(leaves)) {
		f(n.t)
	}
}

func notT(t feText, n int) feText {
	for ; n > 0; n-- {
		t = feText{append([]string{"NOT"}, t.toks...), not(t.x)}
	}
	return t
}

func init() {
	register(&Check{
		ID:    "C15",
		Rule:  "case = one filter text, made from a formula whose meaning is known; GetFilterExpressionMatcher is called on it and the matcher run over all documents and compared with the meaning of the formula; non-trivial: both verdicts occur; states = distinct (text, document)",
		Assum: []string{"texts of the grammar in filterExprParser.go; NOT only before a condition (not before a parenthesis), arithmetic only of a field with following fields and numbers, or of one number with one field on the left side of a comparison"},
		Bound: func(t string) string {
			if t == "thorough" {
				return "all comparisons of 75 left sides and 84 right sides (all 8 operator spellings, 4 spacings), 59 checks, all paths of up to 3 parts in every spelling with up to 2 indexes each, functions of two arguments of every kind, 10 kinds of fields with both signs in every place of arithmetic (2 and 3 operands, mixed with 6 numbers) and functions, all AND/OR formulas of up to 5 conditions with every placement of up to two NOT each and of parentheses; 12 documents and all truth assignments; about 670 odd names and strings (every ASCII character at the beginning, in the middle and at the end, words of the language) in 6 and 4 texts, every operator and keyword of 43 texts in quotes; all pairs of 61 conditions that look alike in 5 to 7 texts each, on 55 documents" + "; all rows of 3 to 5 (thorough: 6) arithmetic operators with 5 kinds of operands, compared with their value and its neighbours, and rows of up to 65 operators with any three at the beginning, in the middle and at the end" + naryBound(6, t == "thorough") + seriesBound(t == "thorough")
			}
			return "all comparisons of 75 left sides and 84 right sides (operator spellings and 4 spacings rotating), 59 checks, all paths of up to 3 parts in every spelling with up to 2 indexes each, functions of two arguments of every kind, 10 kinds of fields with both signs in every place of arithmetic (2 and 3 operands, mixed with 6 numbers) and functions, all AND/OR formulas of up to 4 conditions with every placement of NOT and of parentheses; 12 documents and all truth assignments; about 670 odd names and strings (every ASCII character at the beginning, in the middle and at the end, words of the language) in 6 and 4 texts, every operator and keyword of 43 texts in quotes; all pairs of 61 conditions that look alike in 5 to 7 texts each, on 55 documents" + "; all rows of 3 to 5 (thorough: 6) arithmetic operators with 5 kinds of operands, compared with their value and its neighbours, and rows of up to 65 operators with any three at the beginning, in the middle and at the end" + naryBound(6, t == "thorough") + seriesBound(t == "thorough")
		},
		Run: func(c *Ctx) {
			c15Chains(c)
			c15All(c, func(t feText, mode int, docs []docText) {
				c.Do(func() string { return feJoin(t.toks, mode) }, func() string {
					c.Trace()
					c.Outcome("text")
					return feCheck(c, t, mode, docs)
				})
			})
			parse := func(text string) (g.Expression, error, string) {
				_, fe, err := g.NewFilterExpressionParser(text)
				if err != nil {
					return nil, err, ""
				}
				x, err := fe.OutputExpression()
				return x, err, ""
			}
			numberCases(c, false, parse)
			never := func(string) bool { return false }
			nameCases(c, "=", func(s string) string { return "`" + s + "`" }, "`", never, parse)
			stringCases(c, "=", []func(string) (string, bool){
				func(s string) (string, bool) { return strconv.Quote(s), feNotTruth(s) },
				func(s string) (string, bool) { return strconv.QuoteToASCII(s), feNotTruth(s) },
				func(s string) (string, bool) {
					return `"` + strings.NewReplacer(`"`, `\"`, `\`, `\\`, "\n", `\n`).Replace(s) + `"`, feNotTruth(s)
				},
			}, parse)
			quotedOperators(c, parse)
		},
	})
}

// c15All makes all the texts whose meaning is known, with the documents to try them on.
func c15All(c *Ctx, one func(t feText, mode int, docs []docText)) {
	c15Twins(c, one)
	var docs []docText
	lays := []layout{{}, {rev: true, ws: " "}, {strEsc: escUni}}
	for i, d := range c15Docs() {
		docs = append(docs, docText{d, encode(d, lays[i%3])})
	}
	var left, right []feText
	left = append(append(append(append(left, feFields()...), feMath()...), feMathLeft()...), feFuncs()...)
	right = append(append(append(append(append(right, feValues()...), feFields()...), feMath()...), feFuncs()...), feDates()...)
	i := 0
	for _, l := range left {
		for _, r := range right {
			for oi, op := range feOps {
				i++
				if !c.Thorough && (oi+i/8)%4 != 0 {
					continue
				}
				t := feText{append(append(append([]string{}, l.toks...), op.toks...), r.toks...), op.mk(l.x, r.x)}
				if c.Thorough {
					for m := 0; m < 4; m++ {
						one(t, m, docs)
					}
				} else {
					one(t, (i/8+oi)/4%4, docs)
				}
			}
		}
	}
	// every kind of field in every role
	var rdocs []docText
	for i, d := range c15RoleDocs() {
		rdocs = append(rdocs, docText{d, encode(d, lays[i%3])})
	}
	for _, r := range feRoles(c.Thorough) {
		for k, o := range []feText{feT(cst(1), "1"), feT(cst(-2.5), "-", "2.5"), feT(fld("b"), "b"), feT(fn(g.MathFuncNeg, fld("mat", "[1]", "[0]")), "-", "mat", "[", "1", "]", "[", "0", "]"), feT(cst("x"), `"x"`)} {
			i++
			op := feOps[(i+k)%8]
			one(feText{append(append(append([]string{}, r.t.toks...), op.toks...), o.toks...), op.mk(r.t.x, o.x)}, i%4, rdocs)
			if !r.leftOnly && k > 1 && k < 4 {
				one(feText{append(append(append([]string{}, o.toks...), op.toks...), r.t.toks...), op.mk(o.x, r.t.x)}, (i+1)%4, rdocs)
			}
		}
	}
	c15Forms(c, one)
	c15Series(c, one)
	for n := 3; n <= 7; n++ {
		if n == 7 && !c.Thorough {
			break
		}
		tds := truths(n)
		for ti, t := range nary(0, n) {
			toks := t.toks(func(i int) []string { return []string{key(i), "=", fmt.Sprint(i)} })
			one(feText{toks, t.expr(naryLeaf, nil)}, ti%4, tds)
		}
		// each condition negated in turn
		for ti, t := range nary(0, n) {
			if n > 5 {
				break
			}
			neg := ti % n
			toks := t.toks(func(i int) []string {
				s := []string{key(i), "=", fmt.Sprint(i)}
				if i == neg {
					s = append([]string{"NOT"}, s...)
				}
				return s
			})
			one(feText{toks, t.expr(func(i int) g.Expression {
				if i == neg {
					return not(naryLeaf(i))
				}
				return naryLeaf(i)
			}, nil)}, (ti+1)%4, tds)
		}
	}
	// values on the left
	for _, l := range feValues() {
		for _, r := range append(feFields(), feFuncs()[:1]...) {
			for _, op := range feOps {
				if _, isBool := l.x.(g.ValueExpr).Value.(bool); isBool {
					continue
				}
				_ = r
				one(feText{append(append(append([]string{}, l.toks...), op.toks...), r.toks...), op.mk(l.x, r.x)}, 0, docs)
			}
		}
	}
	for _, t := range feChecks() {
		for m := 0; m < 4; m++ {
			one(t, m, docs)
			one(notT(t, 1), m, docs)
			one(notT(t, 2), m, docs)
			one(feText{append(append([]string{"(", "("}, t.toks...), ")", ")"), t.x}, m, docs)
		}
	}
	// formulas
	leafSet := []feText{feT(eq(fld("a"), cst(1)), "a", "=", "1"), feT(ne(fld("b"), cst(1)), "b", "<>", "1"), feT(exists(fld("c")), "EXISTS", "(", "c", ")"), feT(eq(fld("d"), cst(nil)), "d", "IS", "NULL"), feT(eq(fld("e"), cst(true)), "`e`", "=", "TRUE")}
	var tdocs []docText
	for m := 0; m < 32; m++ {
		v := vObj()
		bit := func(k int) bool { return m>>k&1 == 1 }
		add := func(k string, x *Val) { v.Obj = append(v.Obj, Member{k, x}) }
		if bit(4) {
			add("e", vBool(true))
		}
		if bit(1) {
			add("b", vNum("1"))
		}
		if bit(2) {
			add("c", vArr())
		}
		add("a", vNum([]string{"0", "1"}[m&1]))
		if bit(3) {
			add("d", vNull())
		}
		tdocs = append(tdocs, docText{v, encode(v, layout{})})
	}
	n := 4
	if c.Thorough {
		n = 5
	}
	i = 0
	for k := 1; k <= n; k++ {
		nots := 3
		if k > 3 && !c.Thorough || k > 4 {
			nots = 2
		}
		total := 1
		for j := 0; j < k; j++ {
			total *= nots
		}
		for m := 0; m < total; m++ {
			var ls []feText
			for j, r := 0, m; j < k; j++ {
				ls = append(ls, notT(leafSet[j], r%nots))
				r /= nots
			}
			feTrees(ls, func(t feText) {
				i++
				one(t, i%4, tdocs)
				if k <= 3 {
					one(feText{append(append([]string{"("}, t.toks...), ")"), t.x}, (i+1)%4, tdocs)
				}
			})
		}
	}
	// constants inside
	consts := []feText{feT(g.TrueExpr{}, "TRUE"), feT(g.FalseExpr{}, "FALSE"), leafSet[0], leafSet[1]}
	for _, x := range consts {
		for _, y := range consts {
			for nn := 0; nn < 4; nn++ {
				feTrees([]feText{notT(x, nn&1), notT(y, nn>>1)}, func(t feText) { one(t, 0, tdocs) })
				for _, z := range consts {
					feTrees([]feText{notT(x, nn&1), y, notT(z, nn>>1)}, func(t feText) { one(t, 0, tdocs) })
				}
			}
		}
	}
}
