package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	g "github.com/couchbaselabs/gojsonsm"
)

// spNode is a condition (its number) or a run of items joined by operators, read from left to right.
type spNode struct {
	cond  int
	items []*spNode
	ops   []string
}

// spShapes are all runs over k conditions with parentheses nested at most d deep; the conditions are numbered 0..k-1.
func spShapes(k, d int) []*spNode {
	var out []*spNode
	var runs func(from, to, d int, top bool) []*spNode // all runs over the conditions from..to-1
	runs = func(from, to, d int, top bool) []*spNode {
		var res []*spNode
		var rec func(at int, items []*spNode)
		rec = func(at int, items []*spNode) {
			if at == to {
				res = append(res, &spNode{cond: -1, items: append([]*spNode{}, items...)})
				return
			}
			rec(at+1, append(items, &spNode{cond: at}))
			if d == 0 {
				return
			}
			for end := at + 1; end <= to; end++ {
				for _, sub := range runs(at, end, d-1, false) {
					rec(end, append(items[:len(items):len(items)], sub))
				}
			}
		}
		rec(from, nil)
		return res
	}
	out = runs(0, k, d, true)
	return out
}

func (n *spNode) copyWith(ops []string) (*spNode, []string) {
	if n.cond >= 0 {
		return n, ops
	}
	c := &spNode{cond: -1}
	for i, it := range n.items {
		if i > 0 {
			c.ops = append(c.ops, ops[0])
			ops = ops[1:]
		}
		var x *spNode
		x, ops = it.copyWith(ops)
		c.items = append(c.items, x)
	}
	return c, ops
}

func (n *spNode) toks(conds [][]string, top bool) []string {
	if n.cond >= 0 {
		return conds[n.cond]
	}
	var out []string
	if !top {
		out = append(out, "(")
	}
	for i, it := range n.items {
		if i > 0 {
			out = append(out, n.ops[i-1])
		}
		out = append(out, it.toks(conds, false)...)
	}
	if !top {
		out = append(out, ")")
	}
	return out
}

func (n *spNode) eval(v []bool) bool {
	if n.cond >= 0 {
		return v[n.cond]
	}
	r := n.items[0].eval(v)
	for i, it := range n.items[1:] {
		x := it.eval(v)
		if op := n.ops[i]; op == "&&" || op == "AND" {
			r = r && x
		} else {
			r = r || x
		}
	}
	return r
}

func (n *spNode) hasParens() bool {
	for _, it := range n.items {
		if it.cond < 0 {
			return true
		}
	}
	return false
}

// spJoin writes tokens: 0 blanks everywhere, 1 parentheses attached to what they enclose, 2 much space
func spJoin(toks []string, mode int) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 && !(mode == 1 && (toks[i-1] == "(" || t == ")")) {
			b.WriteString([]string{" ", " ", " \t\n "}[mode])
		}
		b.WriteString(t)
	}
	return b.String()
}

// spGlue writes tokens as close to each other as possible
func spGlue(toks []string) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 {
			l, f := toks[i-1][len(toks[i-1])-1], t[0]
			if wordEnd(l) && wordEnd(f) || f == '(' || l == '"' && f == '"' || l == '\'' && f == '\'' || wordEnd(f) && strings.IndexByte("\"'`])", l) >= 0 || wordEnd(l) && f == '`' {
				b.WriteByte(' ')
			}
		}
		b.WriteString(t)
	}
	return b.String()
}

// spText writes tokens in one of 4 ways: 0 blanks everywhere, 1 parentheses attached to what they enclose, 2 much space, 3 as close as possible
func spText(toks []string, mode int) string {
	if mode == 3 {
		return spGlue(toks)
	}
	return spJoin(toks, mode)
}

// spRead is the grammar of the language: it returns nil if the tokens are not one of its texts.
// cond is called with the tokens of a condition.
func spRead(toks []string, cond func(t []string) int) *spNode {
	pos := 0
	isChain := func(t string) bool { return t == "&&" || t == "||" || t == "AND" || t == "OR" }
	var run func(depth int) *spNode
	run = func(depth int) *spNode {
		n := &spNode{cond: -1}
		for {
			if pos < len(toks) && toks[pos] == "(" {
				pos++
				sub := run(depth + 1)
				if sub == nil || pos >= len(toks) || toks[pos] != ")" {
					return nil
				}
				pos++
				n.items = append(n.items, sub)
			} else {
				from := pos
				for pos < len(toks) && toks[pos] != "(" && toks[pos] != ")" && !isChain(toks[pos]) {
					pos++
				}
				c := cond(toks[from:pos])
				if c < 0 {
					return nil
				}
				n.items = append(n.items, &spNode{cond: c})
			}
			if pos < len(toks) && isChain(toks[pos]) {
				n.ops = append(n.ops, toks[pos])
				pos++
				continue
			}
			return n
		}
	}
	n := run(0)
	if n == nil || pos != len(toks) {
		return nil
	}
	return n
}

type spCond struct {
	toks []string
	x    g.Expression
}

func spConds() []spCond {
	f := fld
	var out []spCond
	add := func(x g.Expression, toks ...string) { out = append(out, spCond{toks, x}) }
	fields := []struct {
		t string
		x g.Expression
	}{
		{"a", f("a")}, {"o.k", f("o", "k")}, {"o.p.q", f("o", "p", "q")}, {"arr[0]", f("arr", "[0]")}, {"arr[1].k", f("arr", "[1]", "k")}, {"mat[1][0]", f("mat", "[1]", "[0]")}, {"arr[10]", f("arr", "[10]")},
		{"`a`", f("a")}, {"`x y`", f("x y")}, {"`b.c`", f("b.c")}, {"`x  y`", f("x  y")}, {"o.`x-y`[0]", f("o", "x-y", "[0]")}, {"`o`.`x-y`[1]", f("o", "x-y", "[1]")}, {"`a&&b`", f("a&&b")}, {"`OR`", f("OR")}, {"`p(q`", f("p(q")}, {"`x (y) z`.k", f("x (y) z", "k")}, {"`a==b`", f("a==b")},
		{"ORDER", f("ORDER")}, {"MAJOR", f("MAJOR")}, {"_u1", f("_u1")}, {"é", f("é")}, {"x-y", f("x-y")}, {"LIKEd", f("LIKEd")}, {"o.AND", f("o", "AND")},
		{"ABS(a)", fn(g.MathFuncAbs, f("a"))}, {"POW(a,2)", fn(g.MathFuncPow, f("a"), cst(2))}, {"POW(2,a)", fn(g.MathFuncPow, cst(2), f("a"))}, {"POW(o.k,POW(a,2))", fn(g.MathFuncPow, f("o", "k"), fn(g.MathFuncPow, f("a"), cst(2)))}, {"POW(POW(a,2),o.k)", fn(g.MathFuncPow, fn(g.MathFuncPow, f("a"), cst(2)), f("o", "k"))},
		{"ABS(CEIL(ABS(arr[0])))", fn(g.MathFuncAbs, fn(g.MathFuncCeil, fn(g.MathFuncAbs, f("arr", "[0]"))))}, {"ATAN2(o.k,a)", fn(g.MathFuncAtan2, f("o", "k"), f("a"))}, {"FLOOR(`b.c`)", fn(g.MathFuncFloor, f("b.c"))}, {"ROUND(a)", fn(g.MathFuncRound, f("a"))}, {"SQRT(a)", fn(g.MathFuncSqrt, f("a"))},
		{"ACOS(a)", fn(g.MathFuncAcos, f("a"))}, {"ASIN(a)", fn(g.MathFuncAsin, f("a"))}, {"ATAN(a)", fn(g.MathFuncAtan, f("a"))}, {"COS(a)", fn(g.MathFuncCos, f("a"))}, {"SIN(a)", fn(g.MathFuncSin, f("a"))}, {"TAN(a)", fn(g.MathFuncTan, f("a"))}, {"DEGREES(a)", fn(g.MathFuncDegrees, f("a"))}, {"RADIANS(a)", fn(g.MathFuncRadians, f("a"))}, {"EXP(a)", fn(g.MathFuncExp, f("a"))}, {"LOG(a)", fn(g.MathFuncLog, f("a"))}, {"LN(a)", fn(g.MathFuncLn, f("a"))},
	}
	values := []struct {
		t string
		x g.Expression
	}{
		{"1", cst(1)}, {"0", cst(0)}, {"-2", cst(-2)}, {"2.5", cst(2.5)}, {"-0.5", cst(-0.5)}, {"9223372036854775807", cst(9223372036854775807)}, {"100", cst(100)},
		{`"x"`, cst("x")}, {`'x'`, cst("x")}, {`""`, cst("")}, {`"x y"`, cst("x y")}, {`"x  y"`, cst("x  y")}, {`" x"`, cst(" x")}, {`"x "`, cst("x ")}, {`'it"s'`, cst(`it"s`)}, {`"it's so"`, cst("it's so")}, {`"a&&b"`, cst("a&&b")}, {`"a && b"`, cst("a && b")}, {`"OR"`, cst("OR")}, {`"(x)"`, cst("(x)")}, {`"x( y"`, cst("x( y")}, {`"x) y"`, cst("x) y")}, {`"é"`, cst("é")}, {`"a==1"`, cst("a==1")}, {`"true"`, cst("true")}, {`"2019-01-01"`, cst("2019-01-01")}, {"\"x\ty\"", cst("x\ty")},
		{"ABS(-2)", fn(g.MathFuncAbs, cst(-2))}, {"POW(2,2)", fn(g.MathFuncPow, cst(2), cst(2))}, {"ABS(o.k)", fn(g.MathFuncAbs, f("o", "k"))}, {"POW(a,o.k)", fn(g.MathFuncPow, f("a"), f("o", "k"))}, {"PI()", cst(math.Pi)}, {"ABS(E())", fn(g.MathFuncAbs, cst(math.E))},
	}
	ops := []struct {
		t  string
		mk func(l, r g.Expression) g.Expression
	}{{"==", eq}, {"=", eq}, {"!=", ne}, {"<", lt}, {"<=", le}, {">", gt}, {">=", ge}}
	for i, l := range fields {
		for j, r := range values {
			for k, o := range ops {
				// every pair of field and operator, of operator and value, of field and value
				if i < 3 || j < 3 || k == (i+j)%len(ops) {
					add(o.mk(l.x, r.x), l.t, o.t, r.t)
				}
			}
		}
		if i < 25 {
			add(eq(l.x, cst(true)), l.t, "==", "true")
			add(eq(l.x, cst(false)), l.t, "=", "false")
			add(ne(l.x, cst(true)), l.t, "!=", "true")
			add(exists(l.x), l.t, "EXISTS")
			add(notExists(l.x), l.t, "IS", "MISSING")
			add(eq(l.x, cst(nil)), l.t, "IS", "NULL")
			add(ne(l.x, cst(nil)), l.t, "IS", "NOT", "NULL")
			for _, p := range []struct{ t, pat string }{{`"x"`, "x"}, {`"^[a-c]+$"`, "^[a-c]+$"}, {`'\d'`, `\d`}, {`"é|y"`, "é|y"}, {`"x  y"`, "x  y"}, {`"(?i)X( |$)"`, "(?i)X( |$)"}, {`"a&&b|(x)"`, "a&&b|(x)"}} {
				like := g.LikeExpr{Lhs: l.x, Rhs: g.RegexExpr{Regex: p.pat}}
				add(like, l.t, "=~", p.t)
				add(like, l.t, "LIKE", p.t)
				add(not(like), l.t, "NOT", "LIKE", p.t)
			}
		}
	}
	for _, d := range []string{"2019", "2019-02", "2019-01-18T01:02:03Z", "2019-02-03"} {
		for _, o := range ops {
			add(o.mk(fn(g.DateFunc, f("d")), fn(g.DateFunc, cst(d))), "DATE(d)", o.t, `DATE("`+d+`")`)
		}
	}
	return out
}

func c17Docs() []docText {
	var out []docText
	for i, d := range c15Docs() {
		v := &Val{K: d.K, Obj: append([]Member{}, d.Obj...)}
		for _, m := range []Member{{"x  y", vStr("x  y")}, {"a&&b", vNum("1")}, {"OR", vStr("OR")}, {"p(q", vStr("x( y")}, {"x (y) z", vObj("k", vNum("1"))}, {"a==b", vStr("a==1")}, {"ORDER", vNum("100")}, {"MAJOR", vStr("(x)")}, {"x-y", vStr(" x")}, {"LIKEd", vStr("it's so")}} {
			if i%3 != 2 {
				v.Obj = append(v.Obj, m)
			}
		}
		out = append(out, docText{v, encode(v, layout{ws: []string{"", " "}[i%2]})})
	}
	return out
}

// spDocs are the documents with every subset of a, b, c, d present with value 1.
func spDocs() (docs []string, vals [][]bool) {
	for m := 0; m < 16; m++ {
		s := ""
		v := make([]bool, 4)
		for i := 0; i < 4; i++ {
			if m>>i&1 == 1 {
				s += fmt.Sprintf(",%q:1", string('a'+rune(i)))
				v[i] = true
			}
		}
		docs = append(docs, "{"+strings.TrimPrefix(s, ",")+"}")
		vals = append(vals, v)
	}
	return
}

func (n *spNode) same(x g.Expression, docs []string, vals [][]bool) string {
	cm := compile(x)
	for i, d := range docs {
		cm.m.Reset()
		if r := cm.run([]byte(d), 1); r.err || r.match != n.eval(vals[i]) {
			return fmt.Sprintf("matches %s: %v (error %v)", d, r.match, r.err)
		}
	}
	return ""
}

// spParse parses twice: the same text must give the same each time.
func spParse(text string) (x g.Expression, err error, msg string) {
	x, err = g.ParseSimpleExpression(text)
	y, err2 := g.ParseSimpleExpression(text)
	if (err == nil) != (err2 == nil) || err == nil && dumpE(x) != dumpE(y) {
		msg = "a second time it is parsed differently"
	}
	if err == nil && x == nil {
		msg = "neither error nor expression"
	}
	return
}

func trySimple(c *Ctx, text string, docs []string) (accepted bool, msg string) {
	step := "parsing"
	start := time.Now()
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%q: panic while %s: %v", text, step, r)
		} else if d := time.Since(start); d > 20*time.Second && msg == "" {
			msg = fmt.Sprintf("%q (%d bytes) took %v", text, len(text), d)
		}
	}()
	c.Trans(1)
	c.State(text)
	x, err := g.ParseSimpleExpression(text)
	if err != nil {
		return false, ""
	}
	if x == nil {
		return false, fmt.Sprintf("%q: neither error nor expression", text)
	}
	step = "printing the expression"
	if len(text) < 1000 {
		_ = x.String() // its size grows with the square of the depth
	}
	step = "compiling"
	cm := compile(x)
	for _, d := range docs {
		step = "matching " + d
		cm.m.Reset()
		if o := cm.run([]byte(d), 1); o.err {
			return true, fmt.Sprintf("%q: accepted, but matching %s gives an error", text, d)
		}
	}
	return true, ""
}

var spTexts = []string{
	`a == 1`, `a . b [ 1 ] >= -1.5`, `a.b[0] != "s t" && b IS NOT NULL || a.b EXISTS`, `( a == 1 ) && ( b < 2 OR ABS(a) >= POW(2,b) )`, "`x y`.`z` LIKE \"^s\" AND ( b NOT LIKE 's. t' )",
	`DATE(a) >= DATE("2019-01-01") || a IS MISSING`, `true && a == true`, `PI() > 1 || POW(a,ABS(b)) <= E()`, `a=~"x"&&b=='y z'||c!=5`, `(a EXISTS)&&(b IS NULL)`, `a == ""x y"" || b == "it's"`,
}

var spAlphabet = []string{"a", "a.b", "`x y`", "`", "\"", "'", "1", "-1.5", `"s"`, `"s t"`, "==", "=", "!=", "<", ">=", "=~", "LIKE", "NOT", "IS", "NULL", "MISSING", "EXISTS", "&&", "||", "AND", "OR", "(", ")", "true", "false", "ABS(a)", "POW(a,2)", "PI()", `"(?=x)"`, "ABS(", "a[0]", "a[", ".", ",", "&", "(a", "1)", "a==1"}

func init() {
	register(&Check{
		ID:    "C17",
		Rule:  "case = (formula shape with operators, one of 4 spacings), (condition form, spacing), a group of token sequences judged by a reference grammar, or a group of texts made by edits; each text goes to the parser; a well-formed text must give an expression with its meaning (a text with parentheses, boolean operands or unseparated parts may be refused), a sequence that the grammar does not derive must be refused; no text may panic, hang, or be parsed differently a second time; non-trivial: accepted texts; states = distinct texts",
		Assum: []string{"quoted values do not look like numbers", "names and values contain no quotes of their own kind except at both ends"},
		Bound: func(t string) string {
			if t == "thorough" {
				return "all shapes of up to 4 conditions with parentheses up to depth 2 (4 operators; &&/|| only at 4 conditions with depth 2) in 4 spacings; about 4700 condition forms in 4 spacings, alone and in 3 surroundings, against 12 documents; functions of every kind of argument inside each other up to depth 2 on both sides; all sequences of up to 7 of 10 tokens and up to 5 of 18; all sequences of up to 3 of 43 pieces joined with and without blanks, all single and double token edits, all single byte edits (256 bytes) of 11 texts, about 670 odd names and strings (every ASCII character at the beginning, in the middle and at the end, words of the language) in 6 and 4 texts, all pairs of 46 conditions that look alike in 4 (thorough: 6) texts on 55 documents, size series of 12 constructions up to 3000" + seriesBound(t == "thorough")
			}
			return "all shapes of up to 3 conditions with parentheses up to depth 2 (4 operators), of 4 conditions with depth 1, in 4 spacings; about 4700 condition forms in 4 spacings, alone and in 3 surroundings, against 12 documents; functions of every kind of argument inside each other up to depth 2 on both sides; all sequences of up to 5 of 10 tokens and up to 4 of 18; all sequences of up to 2 of 43 pieces joined with and without blanks, all single token edits, all single byte edits with 40 bytes of 11 texts, about 670 odd names and strings (every ASCII character at the beginning, in the middle and at the end, words of the language) in 6 and 4 texts, all pairs of 46 conditions that look alike in 4 (thorough: 6) texts on 55 documents, size series of 12 constructions up to 1000" + seriesBound(t == "thorough")
		},
		Run: func(c *Ctx) {
			c17Series(c)
			docs, vals := spDocs()
			// formulas
			forms := [][][]string{
				{{"a", "==", "1"}, {"b", "==", "1"}, {"c", "==", "1"}, {"d", "==", "1"}},
				{{"a", "EXISTS"}, {"b", "EXISTS"}, {"c", "EXISTS"}, {"d", "EXISTS"}},
				{{"a", ">=", "1"}, {"b", "EXISTS"}, {"ABS(c)", "=", "1"}, {"d", "IS", "NOT", "NULL"}},
				{{"`a`", "EXISTS"}, {"b", "LIKE", `"."`}, {"c", "<=", "1.5"}, {"d", "EXISTS"}},
			}
			forms[3][1] = []string{"b", "!=", `"x y"`}
			forms[2][3] = []string{"d", "EXISTS"}
			for fi, conds := range forms {
				vals := vals
				if fi == 3 {
					// a missing field differs from every value
					vals = nil
					for m := 0; m < 16; m++ {
						vals = append(vals, []bool{m&1 > 0, true, m&4 > 0, m&8 > 0})
					}
				}
				for k := 1; k <= 4; k++ {
					depth := 2
					if k == 4 && !c.Thorough {
						depth = 1
					}
					for _, sh := range spShapes(k, depth) {
						nops, choices := 1, []string{"&&", "||", "AND", "OR"}
						if k == 4 && depth == 2 {
							choices = choices[:2]
						}
						for i := 1; i < k; i++ {
							nops *= len(choices)
						}
						for o := 0; o < nops; o++ {
							var ops []string
							for i, r := 0, o; i < k-1; i, r = i+1, r/len(choices) {
								ops = append(ops, choices[r%len(choices)])
							}
							for mode := 0; mode < 4; mode++ {
								t, mode := sh, mode
								c.Do(func() string { t, _ := t.copyWith(ops); return spText(t.toks(conds, true), mode) }, func() string {
									t, _ := t.copyWith(ops)
									text := spText(t.toks(conds, true), mode)
									c.Trans(1)
									c.State(text)
									x, err, msg := spParse(text)
									if msg != "" {
										return msg
									}
									if err != nil {
										if t.mayBeRefused() || mode == 3 {
											c.Outcome("formula refused")
											return ""
										}
										return "error " + err.Error()
									}
									c.Trace()
									c.NonTrivial()
									c.Outcome("formula accepted")
									return t.same(x, docs, vals)
								})
							}
						}
					}
				}
			}
			// conditions
			cdocs := c17Docs()
			ci := 0
			conds := func(cond spCond, cdocs []docText, modes ...int) {
				ci++
				for _, mode := range modes {
					i, mode := ci, mode
					c.Do(func() string { return "condition " + spText(cond.toks, mode) }, func() string {
						for around := 0; around < 4; around++ {
							toks, want := cond.toks, cond.x
							other := fld("zz")
							switch around {
							case 1:
								toks, want = append(append([]string{"("}, toks...), ")"), cond.x
							case 2:
								toks, want = append(append([]string{}, toks...), "&&", "zz", "IS", "MISSING"), and(cond.x, notExists(other))
							case 3:
								toks, want = append([]string{"zz", "EXISTS", []string{"||", "OR"}[i%2]}, toks...), or(exists(other), cond.x)
							}
							m := mode
							if m == 0 && around == 1 {
								m = 1
							}
							text := spText(toks, m)
							c.Trans(1)
							c.State(text)
							x, err, msg := spParse(text)
							if msg != "" {
								return fmt.Sprintf("%q: %s", text, msg)
							}
							if err != nil {
								if mode == 3 || around == 1 && (strings.Contains(text, "(`") || strings.Contains(text, " IS ")) || around == 1 && strings.HasSuffix(cond.toks[len(cond.toks)-1], ")") {
									c.Note("condition refused")
									continue
								}
								return fmt.Sprintf("%q: error %v", text, err)
							}
							c.Note("condition accepted")
							cm := compile(x)
							for _, d := range cdocs {
								c.Trace()
								if msg := checkDoc(c, want, cm, d.v, d.text); msg != "" {
									return fmt.Sprintf("%q: %s", text, msg)
								}
							}
						}
						c.NonTrivial()
						c.Outcome("condition")
						return ""
					})
				}
			}
			for _, cond := range spConds() {
				conds(cond, cdocs, 0, 2, 3)
			}
			c17Twins(c)
			c17Forms(c, func(cond spCond, docs []docText) {
				if c.Thorough {
					conds(cond, docs, 0, 2, 3)
				} else {
					conds(cond, docs, 0)
				}
			})
			numberCases(c, true, func(text string) (g.Expression, error, string) { return spParse(text) })
			nameCases(c, "==", func(s string) string { return "`" + s + "`" }, "`", func(s string) bool { return strings.ContainsAny(s, `"'`) }, spParse)
			var quotes []func(string) (string, bool)
			for _, q := range []string{`"`, "'"} {
				q := q
				quotes = append(quotes, func(s string) (string, bool) {
					return q + s + q, !strings.ContainsAny(s, `"'`) && !looksLikeNumber(s)
				})
			}
			stringCases(c, "==", quotes, spParse)
			// token sequences against the grammar
			seqs := func(alpha []string, n int) {
				read := func(toks []string) (*spNode, bool) {
					bools := false
					t := spRead(toks, func(t []string) int {
						isField := len(t) > 0 && (t[0] == "a" || t[0] == "b" || t[0] == "c")
						switch {
						case len(t) == 1 && (t[0] == "true" || t[0] == "false"):
							bools = true
							if t[0] == "true" {
								return 10
							}
							return 11
						case isField && len(t) == 2 && t[1] == "EXISTS":
							return int(t[0][0] - 'a')
						case isField && len(t) == 3 && (t[1] == "==" || t[1] == ">=") && t[2] == "1":
							return int(t[0][0] - 'a')
						case isField && len(t) == 3 && t[1] == "==" && t[2] == "true":
							return int(t[0][0] - 'a') // 1 is true
						case isField && len(t) == 3 && t[1] == "==" && t[2] == "false":
							return 11
						case len(t) > 0 && (t[0] == "NULL" || t[0] == "MISSING"):
							bools = true
							return 99 // could be names
						case isField && len(t) == 3 && t[1] == "IS" && t[2] == "NULL":
							return 11
						case isField && len(t) == 4 && t[1] == "IS" && t[2] == "NOT" && t[3] == "NULL":
							return 10
						case isField && len(t) == 3 && t[1] == "IS" && t[2] == "MISSING":
							return int(t[0][0]-'a') + 20
						case isField && len(t) == 3 && t[1] == "LIKE" && t[2] == "1":
							return 11 // numbers match no pattern
						case isField && len(t) == 4 && t[1] == "NOT" && t[2] == "LIKE" && t[3] == "1":
							return 10
						case len(t) == 3 && (t[0] == "true" || t[0] == "false") && t[1] == "==" && (t[2] == "true" || t[2] == "false"):
							bools = true
							if t[0] == t[2] {
								return 10
							}
							return 11
						case len(t) == 3 && (t[0] == "true" || t[0] == "false") && t[1] == "==" && t[2] == "1":
							bools = true
							if t[0] == "true" {
								return 10
							}
							return 11
						case len(t) > 1 && (t[0] == "true" || t[0] == "false") && (t[1] == "EXISTS" || t[1] == "IS" || t[1] == "LIKE" || t[1] == "NOT" || t[1] == ">="):
							bools = true
							return 99 // of no meaning that could be expected
						}
						return -1
					})
					return t, bools
				}
				// parentheses around an operand are not in the grammar, but harmless
				lenient := func(text string) bool {
					bare, last := text, ""
					for bare != last {
						last = bare
						bare = strings.NewReplacer("( true )", "true", "( false )", "false", "( 1 )", "1").Replace(bare)
					}
					if bare == text {
						return false
					}
					t, _ := read(strings.Fields(bare))
					return t != nil
				}
				ext := make([][]bool, len(vals))
				for i, v := range vals {
					e := make([]bool, 30)
					copy(e, v)
					e[10] = true
					for j, x := range v {
						e[20+j] = !x
					}
					ext[i] = e
				}
				for _, a := range alpha {
					for _, b := range append([]string{""}, alpha...) {
						for _, b2 := range append([]string{""}, alpha...) {
							if b == "" && b2 != "" {
								continue
							}
							pre := strings.Fields(a + " " + b + " " + b2)
							c.Do(func() string { return fmt.Sprintf("sequences of %d tokens beginning with %q", len(alpha), pre) }, func() string {
								some := false
								var rec func(toks []string, k int) string
								rec = func(toks []string, k int) string {
									text := strings.Join(toks, " ")
									c.Trans(1)
									c.State(text)
									x, err := g.ParseSimpleExpression(text)
									t, bools := read(toks)
									switch {
									case err == nil && t == nil && lenient(text):
									case err == nil && t == nil:
										return fmt.Sprintf("%q is not well-formed, but accepted as %v", text, dumpE(x))
									case err != nil && t != nil && !t.mayBeRefused() && !bools:
										return fmt.Sprintf("%q: error %v", text, err)
									case err == nil && !t.unknown():
										some = true
										c.Trace()
										if msg := t.same(x, docs, ext); msg != "" {
											return fmt.Sprintf("%q: %s", text, msg)
										}
									}
									if k == 0 {
										return ""
									}
									for _, u := range alpha {
										if msg := rec(append(toks[:len(toks):len(toks)], u), k-1); msg != "" {
											return msg
										}
									}
									return ""
								}
								k := 0
								if b2 != "" {
									k = n - 3
								}
								msg := rec(pre, k)
								if some {
									c.NonTrivial()
								}
								c.Outcome("sequences")
								return msg
							})
						}
					}
				}
			}
			if c.Thorough {
				seqs([]string{"a", "b", "==", "1", "&&", "||", "(", ")", "EXISTS", "true"}, 7)
				seqs([]string{"a", "b", "c", "==", ">=", "1", "&&", "OR", "(", ")", "EXISTS", "IS", "NOT", "NULL", "MISSING", "LIKE", "true", "false"}, 5)
			} else {
				seqs([]string{"a", "b", "==", "1", "&&", "||", "(", ")", "EXISTS", "true"}, 5)
				seqs([]string{"a", "b", "c", "==", ">=", "1", "&&", "OR", "(", ")", "EXISTS", "IS", "NOT", "NULL", "MISSING", "LIKE", "true", "false"}, 4)
			}
			// any text
			rdocs := c16Docs()
			group := func(name string, f func(try func(text string) bool)) {
				c.Do(func() string { return name }, func() (msg string) {
					any := false
					f(func(text string) bool {
						var acc bool
						acc, msg = trySimple(c, text, rdocs)
						any = any || acc
						return msg == ""
					})
					c.Outcome("any text")
					if any {
						c.NonTrivial()
					}
					return
				})
			}
			group("empty texts", func(try func(string) bool) {
				for _, t := range []string{"", " ", "\n", "\t\r\n ", "\x00", "\ufeff", "\xff", "\u00a0", "a\u00a0==\u20031"} {
					if !try(t) {
						return
					}
				}
			})
			for _, a := range spAlphabet {
				for _, b := range spAlphabet {
					a, b := a, b
					group("pieces "+a+" "+b, func(try func(string) bool) {
						for _, s := range []string{"", " "} {
							if !try(a + s + b) {
								return
							}
							for _, t := range spAlphabet {
								for _, s2 := range []string{"", " "} {
									if !try(a+s+b+s2+t) || !c.Thorough {
										return
									}
								}
							}
						}
					})
				}
			}
			few := []string{"a", "1", "'", `"s t"`, "==", "&&", "NOT", "(", ")", "`", ".", "EXISTS", "ABS(a)"}
			for _, t := range spTexts {
				t := t
				toks := strings.Split(t, " ")
				for p := 0; p <= len(toks); p++ {
					p := p
					edit := func(ins string, skip int) []string {
						l := append([]string{}, toks[:p]...)
						if ins != "" {
							l = append(l, ins)
						}
						return append(l, toks[p+skip:]...)
					}
					group(fmt.Sprintf("token edits of %s at %d", t, p), func(try func(string) bool) {
						for _, x := range append([]string{""}, spAlphabet...) {
							for skip := 0; skip <= 2 && p+skip <= len(toks); skip++ {
								if !try(strings.Join(edit(x, skip), " ")) {
									return
								}
							}
						}
					})
					if c.Thorough {
						group(fmt.Sprintf("double token edits of %s at %d", t, p), func(try func(string) bool) {
							for _, x := range append([]string{""}, few...) {
								for skip := 0; skip <= 1 && p+skip <= len(toks); skip++ {
									l := edit(x, skip)
									for q := 0; q <= len(l); q++ {
										for _, y := range append([]string{""}, few...) {
											for sk := 0; sk <= 1 && q+sk <= len(l); sk++ {
												m := append([]string{}, l[:q]...)
												if y != "" {
													m = append(m, y)
												}
												if !try(strings.Join(append(m, l[q+sk:]...), " ")) {
													return
												}
											}
										}
									}
								}
							}
						})
					}
				}
				bs := "\x00\t\n !\"#%&'()*+,-./019:;<=>@AEN[\\]_`a{|}~\x7f\x80\xff"
				if c.Thorough {
					bs = ""
					for i := 0; i < 256; i++ {
						bs += string([]byte{byte(i)})
					}
				}
				for i := 0; i <= len(t); i++ {
					i := i
					group(fmt.Sprintf("byte edits of %s at %d", t, i), func(try func(string) bool) {
						if !try(t[:i]) || !try(t[i:]) {
							return
						}
						for k := 0; k < len(bs); k++ {
							if !try(t[:i]+bs[k:k+1]+t[i:]) || i < len(t) && !try(t[:i]+bs[k:k+1]+t[i+1:]) {
								return
							}
						}
						if i < len(t) {
							try(t[:i] + t[i+1:])
						}
					})
				}
			}
			for i := 0; i < 256; i++ {
				i := i
				group(fmt.Sprintf("byte strings beginning with %#x", i), func(try func(string) bool) {
					b := string([]byte{byte(i)})
					if !try(b) || !try("a=="+b) || !try(`a=="`+b+`"`) || !try("`"+b+"`==1") || !try(b+"a==1") || !try("a==1"+b) {
						return
					}
					for j := 0; j < 256; j++ {
						if !try(b + string([]byte{byte(j)})) {
							return
						}
					}
				})
			}
			sizes := []int{1, 2, 3, 5, 10, 20, 50, 100, 300, 1000}
			if c.Thorough {
				sizes = append(sizes, 3000)
			}
			for _, s := range []struct {
				name string
				mk   func(n int) string
			}{
				{"parentheses", func(n int) string { return strings.Repeat("(", n) + "a==1" + strings.Repeat(")", n) }},
				{"separate parentheses", func(n int) string { return strings.Repeat("( ", n) + "a == 1" + strings.Repeat(" )", n) }},
				{"open parentheses", func(n int) string { return strings.Repeat("(", n) }},
				{"closed parentheses", func(n int) string { return "a == 1 " + strings.Repeat(")", n) }},
				{"AND", func(n int) string { return strings.Repeat("a == 1 && ", n) + "a == 1" }},
				{"AND and OR", func(n int) string { return strings.Repeat("a==1&&b==1||", n) + "a==1" }},
				{"nested tails", func(n int) string {
					return strings.Repeat("a == 1 && ( b == 1 || ( ", n) + "a == 1" + strings.Repeat(" ) )", n)
				}},
				{"functions", func(n int) string { return strings.Repeat("ABS(", n) + "a" + strings.Repeat(")", n) + " == 1" }},
				{"two-argument functions", func(n int) string { return strings.Repeat("POW(", n) + "a" + strings.Repeat(",b)", n) + " == 1" }},
				{"path", func(n int) string { return "a" + strings.Repeat(".b", n) + strings.Repeat("[1]", n) + " == 1" }},
				{"operators", func(n int) string { return "a" + strings.Repeat("==", n) + "1" }},
				{"long names", func(n int) string {
					return strings.Repeat("a", n) + " == \"" + strings.Repeat("é ", n) + "\" && `" + strings.Repeat("x y", n) + "` == " + strings.Repeat("9", n%19)
				}},
			} {
				for _, n := range sizes {
					s, n := s, n
					group(fmt.Sprintf("%d times %s", n, s.name), func(try func(string) bool) { try(s.mk(n)) })
				}
			}
		},
	})
}

// mayBeRefused says whether the parser's documentation leaves it free to refuse the text: parentheses
// elsewhere than around the whole, the first condition, or all that follows an operator.
func (n *spNode) mayBeRefused() bool {
	flat := func(x *spNode) bool { return x.cond >= 0 || !x.hasParens() }
	if len(n.items) == 1 && n.items[0].cond < 0 {
		return !flat(n.items[0])
	}
	for i, it := range n.items {
		if it.cond >= 0 {
			continue
		}
		if i == 0 && len(it.items) == 1 && it.items[0].cond >= 0 || i == len(n.items)-1 && flat(it) {
			continue
		}
		return true
	}
	return false
}

func (n *spNode) unknown() bool {
	if n.cond >= 0 {
		return n.cond == 99
	}
	for _, it := range n.items {
		if it.unknown() {
			return true
		}
	}
	return false
}
