package main

import (
	"fmt"
	"runtime/debug"
	"syscall"

	g "github.com/couchbaselabs/gojsonsm"
)

// roomy copies an expression so that every list in it has unused capacity, filled with a mark:
// whoever appends to a list of the caller overwrites it.
func roomy(x g.Expression) g.Expression {
	list := func(l []g.Expression) []g.Expression {
		out := make([]g.Expression, 0, len(l)+2)
		for _, e := range l {
			out = append(out, roomy(e))
		}
		full := out[:cap(out)]
		full[len(l)] = g.ValueExpr{Value: "mark"}
		full[len(l)+1] = g.ValueExpr{Value: "mark"}
		return out
	}
	switch x := x.(type) {
	case g.AndExpr:
		return g.AndExpr(list(x))
	case g.OrExpr:
		return g.OrExpr(list(x))
	case g.FuncExpr:
		return g.FuncExpr{FuncName: x.FuncName, Params: list(x.Params)}
	case g.FieldExpr:
		p := make([]string, len(x.Path), len(x.Path)+3)
		copy(p, x.Path)
		full := p[:cap(p)]
		for i := len(x.Path); i < len(full); i++ {
			full[i] = "mark"
		}
		return g.FieldExpr{Root: x.Root, Path: p}
	case g.NotExpr:
		return g.NotExpr{SubExpr: roomy(x.SubExpr)}
	case g.ExistsExpr:
		return g.ExistsExpr{SubExpr: roomy(x.SubExpr)}
	case g.NotExistsExpr:
		return g.NotExistsExpr{SubExpr: roomy(x.SubExpr)}
	case g.EqualsExpr:
		return g.EqualsExpr{Lhs: roomy(x.Lhs), Rhs: roomy(x.Rhs)}
	case g.NotEqualsExpr:
		return g.NotEqualsExpr{Lhs: roomy(x.Lhs), Rhs: roomy(x.Rhs)}
	case g.LessThanExpr:
		return g.LessThanExpr{Lhs: roomy(x.Lhs), Rhs: roomy(x.Rhs)}
	case g.LessEqualsExpr:
		return g.LessEqualsExpr{Lhs: roomy(x.Lhs), Rhs: roomy(x.Rhs)}
	case g.GreaterThanExpr:
		return g.GreaterThanExpr{Lhs: roomy(x.Lhs), Rhs: roomy(x.Rhs)}
	case g.GreaterEqualsExpr:
		return g.GreaterEqualsExpr{Lhs: roomy(x.Lhs), Rhs: roomy(x.Rhs)}
	case g.LikeExpr:
		return g.LikeExpr{Lhs: roomy(x.Lhs), Rhs: x.Rhs}
	case g.AnyInExpr:
		return g.AnyInExpr{VarId: x.VarId, InExpr: roomy(x.InExpr), SubExpr: roomy(x.SubExpr)}
	case g.EveryInExpr:
		return g.EveryInExpr{VarId: x.VarId, InExpr: roomy(x.InExpr), SubExpr: roomy(x.SubExpr)}
	case g.AnyEveryInExpr:
		return g.AnyEveryInExpr{VarId: x.VarId, InExpr: roomy(x.InExpr), SubExpr: roomy(x.SubExpr)}
	}
	return x
}

func c25Sets() [][]g.Expression {
	var sets [][]g.Expression
	f, v := fld, vfld
	ex := corpusExprs()
	more := []g.Expression{
		and(g.TrueExpr{}, eq(f("a"), cst(1)), or(g.FalseExpr{}, eq(f("b"), cst(2)), g.TrueExpr{})),
		or(g.FalseExpr{}, and(g.TrueExpr{}, exists(f("o", "k"))), not(not(eq(f("a"), cst(1))))),
		and(eq(f("a"), cst(1)), or(and(g.FalseExpr{}, eq(f("a"), cst(2))), eq(f("b"), cst(2))), not(g.FalseExpr{})),
		anyIn(1, f("arr"), and(g.TrueExpr{}, or(eq(v(1, "k"), cst(true)), g.FalseExpr{}, eq(v(1, "s"), cst("q"))))),
		everyIn(1, f("mat"), or(anyIn(2, v(1), and(eq(v(2), f("a")), eq(v(2), v(2)))), g.FalseExpr{})),
		and(eq(f("o", "k"), f("o", "l")), eq(f("o", "p", "q"), f("o", "p")), eq(f("o"), f("o", "k"))),
		and(and(and(eq(f("a"), cst(1)), eq(f("b"), cst(2))), or(or(eq(f("a"), cst(1)))))),
		eq(fn(g.MathFuncAdd, fn(g.MathFuncMul, f("a"), f("b")), f("o", "n")), fn(g.MathFuncNeg, f("a"))),
	}
	for _, e := range append(append([]g.Expression{}, ex...), more...) {
		sets = append(sets, []g.Expression{e})
	}
	// ANDs and ORs at every place of ANDs and ORs
	x := func(k int) g.Expression { return eq(f("abcdefgh"[k:k+1]), cst(1)) }
	op := func(k int, l ...g.Expression) g.Expression {
		if k&1 == 0 {
			return and(l...)
		}
		return or(l...)
	}
	var nest []g.Expression
	for m := 0; m < 4; m++ {
		a, b := m&1, m>>1
		in, in2 := op(b, x(0), x(1)), op(b, x(4), x(5))
		nest = append(nest, op(a, in, x(2), x(3)), op(a, x(2), in, x(3)), op(a, x(2), x(3), in), op(a, in, in2), op(a, in, x(2), in2, x(3)), op(a, op(b, in, x(2)), x(3), x(6)), op(a, op(b, x(2), in), x(3)), op(a, x(3), op(b, op(a, x(0)), x(1), x(2))), op(a, op(b, x(0), x(1), x(2)), x(3)))
		nest = append(nest, not(op(a, in, x(2), x(3))), anyIn(1, f("arr"), op(a, op(b, eq(v(1), cst(1)), eq(v(1, "k"), cst(1))), eq(v(1, "s"), cst("q")), x(0))))
	}
	for _, e := range nest {
		sets = append(sets, []g.Expression{e})
	}
	for i, n := range []int{9, 17, 33, 65} {
		series(n, func(s sized) {
			if s.name == "AND of n" || s.name == "n nested" && i > 1 || s.name == "OR of n negations" && i < 2 || s.name == "n conditions on two fields, AND" && i == 0 || s.name == "body of n, EVERY" && i == 1 {
				sets = append(sets, []g.Expression{s.x})
			}
		})
	}
	return append(sets, ex[:6], ex[9:15], ex[18:27], more)
}

// c25Strange are strings and numbers that conversions might be tempted to rewrite.
func c25Strange() []string {
	var out []string
	for _, d := range []string{"2019-01-02", "2019/01/02", "2019.01.02", "2019", "2019-01", "2019/01", " 2019-01-02 ", "2019-1-2", "02.01.2019", "20190102", "2019-01-02,", "\\u0032019-01-02", "2019\\/01\\/02"} {
		out = append(out, `"`+d+`"`)
		if len(d) < 10 {
			continue
		}
		for _, t := range []string{"T01:02:03Z", "t01:02:03z", " 01:02:03Z", " 01:02:03", "T01:02:03,5Z", "T01:02:03.5Z", "T01:02:03+05:30", "T01:02:03.123456789-0800", "T01:02", "T24:00:00Z", "_01:02:03Z", "\\u005401:02:03\\u005A"} {
			out = append(out, `"`+d+t+`"`)
		}
	}
	for b := 0; b < 256; b++ {
		if b >= 0x20 && b != '"' && b != '\\' {
			out = append(out, `"x`+string([]byte{byte(b)})+`y"`)
		}
		if b < 0x30 || b > 0x70 {
			out = append(out, fmt.Sprintf(`"x\u%04xy"`, b))
		}
	}
	return append(out, `"TRUE"`, `"True"`, `"x,y"`, `"1,5"`, `"1.50"`, `"+1"`, `" 1"`, `"1 "`, `"0x10"`, `"1e5"`, `"-0"`, `"\u00e9"`, `"\ud83d\ude00"`, `"\ud83d"`, `"\/\b\f\n\r\t\\\""`, `"é"`, `"ABC"`, `"a\u0000"`, `""`,
		`1`, `-1`, `-0`, `1.50`, `1e5`, `1E5`, `1E+05`, `-1.5e-3`, `18446744073709551615`, `9223372036854775808`, `-9223372036854775808`, `99999999999999999999`, `0.1e1`, `true`, `null`, `[ 1 , "x,y" ]`, `{ "a" : "2019-01-02T01:02:03,5Z" }`)
}

// c25Conversions are conditions that convert the field a (and b) in every way.
func c25Conversions() []g.Expression {
	f := fld
	a, b := f("a"), f("b")
	out := []g.Expression{eq(fn(g.DateFunc, a), fn(g.DateFunc, b)), lt(fn(g.DateFunc, a), g.TimeExpr{Time: "2019-06-01"}), eq(fn(g.DateFunc, a), cst("2019-01-02")), eq(fn(g.DateFunc, a), b)}
	for _, c := range []interface{}{1, 1.5, uint64(1), "x", "é", "2019-01-02", true, nil} {
		out = append(out, eq(a, cst(c)), ge(a, cst(c)))
	}
	for _, p := range []string{"x", "^.$", "(?i)abc", ",", "é"} {
		out = append(out, g.LikeExpr{Lhs: a, Rhs: g.RegexExpr{Regex: p}})
	}
	for _, n := range []string{g.MathFuncAbs, g.MathFuncCeil, g.MathFuncFloor, g.MathFuncRound, g.MathFuncSqrt, g.MathFuncSin, g.MathFuncNeg, g.MathFuncExp, g.MathFuncDegrees} {
		out = append(out, gt(fn(n, a), b), eq(fn(n, fn(g.MathFuncAdd, a, b)), cst(1)))
	}
	for _, n := range []string{g.MathFuncAdd, g.MathFuncSub, g.MathFuncMul, g.MathFuncDiv, g.MathFuncMod, g.MathFuncPow, g.MathFuncAtan2} {
		out = append(out, eq(fn(n, a, b), a), eq(fn(n, a, cst(2)), b))
	}
	return append(out, eq(a, b), lt(a, b), exists(a), anyIn(1, f("arr"), or(eq(fn(g.DateFunc, vfld(1)), fn(g.DateFunc, a)), g.LikeExpr{Lhs: vfld(1), Rhs: g.RegexExpr{Regex: "x"}})), anyIn(1, f("arr"), eq(vfld(1), a)))
}

func init() {
	register(&Check{
		ID:    "C25",
		Rule:  "case = one list of expressions; all histories of operations (compile with a used and with a new compiler, simplify, print, match documents in three layouts with two matchers of one definition, malformed documents, read from JSON) are run, and after every operation the expressions (including the unused capacity of their lists), the compiled definition (everything reachable) and the documents (including the bytes behind them) are compared with what they were, and new compilations with the first by their verdicts; non-trivial: all; states = distinct (expressions, history)",
		Assum: []string{"regular expressions and types of other packages are not looked into"},
		Bound: func(t string) string {
			n := "4"
			if t == "thorough" {
				n = "5"
			}
			return "all histories of up to " + n + " of 11 operations on 111 expression lists; 62 conditions that convert their operands, on about 570 strange values (every byte and many escapes among them) in three documents each; each document also in memory that cannot be written to and ends where it ends; removal of items: 56 texts (24 of them malformed or odd) with 270 lists of keys in all orders, 5 sizes of the destination, 3 kinds of maps"
		},
		Run: func(c *Ctx) {
			c25Remove(c)
			tail := "\"tail\":{"
			mk := func(s string) []byte {
				b := []byte(s + tail)
				return b[:len(s)]
			}
			var docs [][]byte
			var docWas []string
			cd := corpusDocs()
			for i, d := range cd {
				switch i % 3 {
				case 0:
					docs = append(docs, mk(d.String()))
				case 1:
					docs = append(docs, mk(string(encode(d, layout{keyEsc: escUni, strEsc: escMixed, ws: "\n "}))))
				case 2:
					docs = append(docs, mk(string(encode(d, layout{rev: true, strEsc: escUpper, extra: `"zzz":[{"a":"\n"},1]`}))))
				}
			}
			for _, s := range malformedDocs() {
				docs = append(docs, mk(s))
			}
			for _, d := range docs {
				docWas = append(docWas, string(d[:cap(d)]))
			}
			group := func(k int) [][]byte {
				var out [][]byte
				for i := range docs {
					if i%4 == k {
						out = append(out, docs[i])
					}
				}
				return out
			}
			groups := [][][]byte{group(0), group(1), group(2), group(3)}
			for si, set := range c25Sets() {
				set := set
				c.Do(func() string { return fmt.Sprintf("list %d (%s)", si, show(set[0])) }, func() string {
					n := len(set)
					var exprs []g.Expression
					for _, e := range set {
						exprs = append(exprs, roomy(e))
					}
					exprs = append(exprs, g.ValueExpr{Value: "mark"})[:n]
					exprWas := dump(exprs)
					for _, e := range exprs {
						_ = e.String()
						var st g.ExpressionStats
						st.Scan(e)
						if g.CompactExpression(e); dump(exprs) != exprWas {
							return "printing, counting or simplifying changes the expressions"
						}
					}
					var t g.Transformer
					def := t.Transform(exprs)
					if dump(exprs) != exprWas {
						return "compiling changes the expressions"
					}
					verdicts := func(d *g.MatchDef) string {
						m := g.NewFastMatcher(d)
						s := ""
						for _, doc := range docs[:len(cd)] {
							m.Reset()
							s += full(m, doc, n) + "\n"
						}
						return s
					}
					wantV := verdicts(def)
					gm := g.NewFastMatcher(def)
					for _, d := range docs {
						gm.Reset()
						if _, fault := guarded(gm, d, n); fault != "" {
							return string(d) + ": " + fault
						}
					}
					defWas := dump(def)
					m1, m2 := g.NewFastMatcher(def), g.NewFastMatcher(def)
					matchAll := func(m *g.FastMatcher, ds [][]byte) {
						for _, d := range ds {
							m.Reset()
							full(m, d, n)
						}
					}
					ops := []struct {
						name string
						f    func() string
					}{
						{"compile again with the same compiler", func() string {
							if v := verdicts(t.Transform(exprs)); v != wantV {
								return "compiling again gives a definition with other verdicts"
							}
							return ""
						}},
						{"compile with a new compiler", func() string {
							var t2 g.Transformer
							if v := verdicts(t2.Transform(exprs)); v != wantV {
								return "compiling with a new compiler gives a definition with other verdicts"
							}
							return ""
						}},
						{"compile something else with the same compiler", func() string {
							t.Transform([]g.Expression{and(eq(fld("a"), fld("b")), anyIn(1, fld("nums"), eq(vfld(1), cst(1))))})
							return ""
						}},
						{"simplify", func() string {
							for _, e := range exprs {
								g.CompactExpression(e)
							}
							return ""
						}},
						{"print", func() string {
							for _, e := range exprs {
								_ = e.String()
							}
							if def.ParseNode != nil {
								_ = def.String()
							}
							return ""
						}},
						{"match 1 a", func() string { matchAll(m1, groups[0]); return "" }},
						{"match 1 b", func() string { matchAll(m1, groups[1]); return "" }},
						{"match 2 c", func() string { matchAll(m2, groups[2]); return "" }},
						{"match 2 d", func() string { matchAll(m2, groups[3]); return "" }},
						{"compile the simplified form", func() string {
							var l []g.Expression
							for _, e := range exprs {
								l = append(l, g.CompactExpression(e))
							}
							var t2 g.Transformer
							matchAll(g.NewFastMatcher(t2.Transform(l)), groups[0])
							return ""
						}},
						{"new matcher of the definition", func() string {
							if v := verdicts(def); v != wantV {
								return "a new matcher of the definition gives other verdicts"
							}
							return ""
						}},
					}
					depth := 4
					if c.Thorough {
						depth = 5
					}
					var hist []string
					var rec func() string
					rec = func() string {
						if len(hist) == depth {
							return ""
						}
						for _, op := range ops {
							hist = append(hist, op.name)
							c.Trans(1)
							if m := op.f(); m != "" {
								return fmt.Sprintf("after %q: %s", hist, m)
							}
							c.State(fmt.Sprint(si, hist))
							if s := dump(exprs); s != exprWas {
								return fmt.Sprintf("after %q the expressions are changed", hist)
							}
							if s := dump(def); s != defWas {
								return fmt.Sprintf("after %q the definition is changed", hist)
							}
							for i, d := range docs {
								if string(d[:cap(d)]) != docWas[i] {
									return fmt.Sprintf("after %q a document is changed to %q", hist, d[:cap(d)])
								}
							}
							if m := rec(); m != "" {
								return m
							}
							hist = hist[:len(hist)-1]
						}
						return ""
					}
					c.NonTrivial()
					c.Trace()
					c.Outcome("unchanged")
					return rec()
				})
			}
			// conversions leave the documents alone, and give the same when done again
			strange := c25Strange()
			for ei, x := range c25Conversions() {
				ei, x := ei, x
				c.Do(func() string { return "conversion " + show(x) }, func() string {
					was := dumpE(x)
					cm := compile(x)
					defWas := dump(cm.def)
					for i, s := range strange {
						others := []string{strange[(i*7+ei)%len(strange)], strange[(i*11+3)%len(strange)], "1"}
						if c.Thorough {
							others = strange
						}
						for j, o := range others {
							var d []byte
							switch (i + j + ei) % 3 {
							case 0:
								d = mk(`{"a":` + s + `,"arr":[` + o + `,` + s + `],"b":` + o + `}`)
							case 1:
								d = mk(` { "b" : ` + o + ` , "a" : ` + s + ` , "arr" : [ ` + s + ` ] } `)
							default:
								d = mk(`{"arr":[` + o + `,1],"\u0061":` + s + `,"\u0062":` + o + `}`)
							}
							dWas := string(d[:cap(d)])
							first := ""
							for k := 0; k < 3; k++ {
								cm.m.Reset()
								var r string
								if k == 1 {
									fault := ""
									if r, fault = guarded(cm.m, d, 1); fault != "" {
										return dWas + ": " + fault
									}
								} else {
									r = full(cm.m, d, 1)
								}
								c.Trans(1)
								if k == 0 {
									first = r
								} else if r != first {
									return fmt.Sprintf("%s: first %s, then %s", dWas, first, r)
								}
								if now := string(d[:cap(d)]); now != dWas {
									return fmt.Sprintf("%s is changed to %s", dWas, now)
								}
							}
							c.State(dWas)
						}
					}
					if dumpE(x) != was || dump(cm.def) != defWas {
						return "the expression or the definition is changed"
					}
					c.Trace()
					c.NonTrivial()
					c.Outcome("conversion")
					return ""
				})
			}
			// reading an expression from JSON leaves the bytes alone
			for _, s := range jsonExprTexts() {
				s := s
				c.Do(func() string { return "reading " + s }, func() string {
					b := mk(s)
					was := string(b[:cap(b)])
					e1, err1 := g.ParseJsonExpression(b)
					if string(b[:cap(b)]) != was {
						return "the text was changed"
					}
					e2, err2 := g.ParseJsonExpression(b)
					if (err1 == nil) != (err2 == nil) || dumpE(e1) != dumpE(e2) {
						return "reading it again gives something else"
					}
					// the expression must not depend on the bytes any more
					for i := range b {
						b[i] = 'x'
					}
					if dumpE(e1) != dumpE(e2) || dumpE(e1) != func() string { e, _ := g.ParseJsonExpression([]byte(s)); return dumpE(e) }() {
						return "the expression changes with the text"
					}
					c.Trans(3)
					c.State(s)
					c.NonTrivial()
					c.Trace()
					c.Outcome("JSON")
					return ""
				})
			}
		},
	})
}

func dumpE(e g.Expression) string { return dump([]g.Expression{e}) }

var guardArea []byte

// guarded matches a copy of the document in memory that cannot be written to, and behind which there is none.
func guarded(m *g.FastMatcher, doc []byte, n int) (r, fault string) {
	const size = 1 << 16
	page := syscall.Getpagesize()
	if guardArea == nil {
		a, err := syscall.Mmap(-1, 0, size+page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			return full(m, doc, n), ""
		}
		if syscall.Mprotect(a[size:], syscall.PROT_NONE) != nil {
			return full(m, doc, n), ""
		}
		guardArea = a
	}
	if len(doc) > size {
		return full(m, doc, n), ""
	}
	from := size - (len(doc)+page-1)/page*page
	if from == size {
		from = size - page
	}
	syscall.Mprotect(guardArea[from:size], syscall.PROT_READ|syscall.PROT_WRITE)
	d := guardArea[size-len(doc) : size : size]
	copy(d, doc)
	syscall.Mprotect(guardArea[from:size], syscall.PROT_READ)
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		if e := recover(); e != nil {
			fault = fmt.Sprintf("in memory that cannot be written to, and behind which there is none: %v", e)
		}
	}()
	return full(m, d, n), ""
}
