package main

import (
	"fmt"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

// agree runs a sequence of documents through one matcher of each kind.
func agree(c *Ctx, exprs []g.Expression, docs [][]byte, reset bool) string {
	cm := compile(exprs...)
	slow := g.NewSlowMatcher(exprs)
	for i, d := range docs {
		c.Trans(1)
		cm.m.Reset()
		if reset || i%3 == 0 {
			slow.Reset()
		}
		f := cm.run(d, len(exprs))
		ok, err := slow.Match(d)
		if err != nil || f.err {
			return fmt.Sprintf("%s on %s (document %d): error (slow: %v, fast: %v)", showAll(exprs), d, i, err, f)
		}
		each := ""
		for k := range exprs {
			if slow.ExpressionMatched(k) {
				each += "1"
			} else {
				each += "0"
			}
		}
		if each != f.each || ok != f.match {
			return fmt.Sprintf("%s on %s (document %d): slow matcher %v %s, fast matcher %v %s", showAll(exprs), d, i, ok, each, f.match, f.each)
		}
		if i%5 != 0 {
			continue
		}
		if st, n, err := slow.MatchWithStatus(d); st != ok || n != 0 || err != nil {
			return fmt.Sprintf("%s on %s: slow matcher with status %v %v %v, without %v", showAll(exprs), d, st, n, err, ok)
		}
	}
	return ""
}

func showAll(l []g.Expression) string {
	s := ""
	for i, x := range l {
		if i > 0 {
			s += " ; "
		}
		s += show(x)
	}
	return s
}

func c22Docs(big bool) [][]byte {
	nums := []*Val{vNum("1"), vNum("2")}
	strs := []*Val{vStr("x"), vStr("é\n")}
	bools := []*Val{vBool(false), vBool(true)}
	if big {
		nums = append(nums, vNum("-1.5e1"))
		strs = append(strs, vStr(""))
	}
	elem := func(k string, s string) *Val {
		return vObj("k", vNum(k), "s", vStr(s), "in", vObj("a", vNum(k), "b", vArr()))
	}
	arrs := []*Val{
		vArr(),
		vArr(elem("1", "x")),
		vArr(elem("2", "x"), elem("1", "y")),
		vArr(elem("2", "y"), elem("3", "é\n"), elem("2", "x")),
	}
	mats := []*Val{
		vArr(),
		vArr(vArr(vNum("1"), vNum("2")), vArr()),
		vArr(vArr(), vArr(vNum("2"), vNum("3"), vNum("2.0"))),
	}
	var out [][]byte
	i := 0
	for _, a := range nums {
		for _, b := range nums {
			for _, s := range strs {
				for _, t := range strs {
					for _, p := range bools {
						for _, q := range bools {
							for _, arr := range arrs {
								for _, mat := range mats {
									if !big && (i/7)%2 != 0 && len(mat.Arr) > 0 && len(arr.Arr) > 1 {
										i++
										continue
									}
									v := vObj("a", a, "b", b, "s", s, "p", p, "n", vNull(), "arr", arr, "q", q, "mat", mat, "t", t, "nums", vArr(b, a, vNum("3")), "o", vObj("k", b, "l", s, "o", vObj("k", p)))
									var l layout
									switch i % 3 {
									case 1:
										l = layout{ws: " \n", strEsc: escUni, rev: true}
									case 2:
										l = layout{keyEsc: escMixed, extra: `"zz":{"a":[1,{"s":"x"}]}`}
									}
									out = append(out, encode(v, l))
									i++
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func init() {
	register(&Check{
		ID:    "C22",
		Rule:  "case = one list of expressions; both matchers are run over all documents one after another on one instance each (the slow one also without resets) and verdict and per-expression results compared; short sequences of documents are also run on new instances; non-trivial: both verdicts occur; states = distinct (expressions, document)",
		Assum: []string{"expressions of AND, OR, ANY and comparisons of fields with fields and constants of the same type; constants are strings, booleans, null and double-precision numbers; all fields are present; numbers are exact in double precision and differ, if they do, by more than one ten-millionth (the fast matcher takes closer ones for equal)"},
		Bound: func(t string) string {
			if t == "thorough" {
				return "all comparisons of 15 operand pairs (6 operators), all AND/OR formulas of 2 of 40 and 3 of 18 leaves (loops nested to depth 2 included), all lists of 2 of 40 and 3 of 12 expressions, on 972 documents; every value of 38 strings, 34 numbers, the booleans and null against every other one of its type, as field and as constant, within loops as well; all arrays of up to 4 elements (thorough: 5; one less for objects and arrays) of 2 to 5 values of one type, in 188 loops; all sequences of 3 of 24 documents for 60 expressions" + "; 670 odd names beside the names they could be taken for, and all ways to write 1 to 4 parts with 14 separators as a path or a name; all AND/OR formulas of up to 5 conditions (thorough: 6), at the top and in loop bodies, with all truth assignments" + seriesBound(t == "thorough")
			}
			return "all comparisons of 15 operand pairs (6 operators), all AND/OR formulas of 2 of 40 and 3 of 6 leaves (loops nested to depth 2 included), all lists of 2 of 40 and 3 of 4 expressions, on up to 768 documents; every value of 38 strings, 34 numbers, the booleans and null against every other one of its type, as field and as constant, within loops as well; all arrays of up to 4 elements (thorough: 5; one less for objects and arrays) of 2 to 5 values of one type, in 188 loops; all sequences of 2 of 24 documents for 60 expressions" + "; 670 odd names beside the names they could be taken for, and all ways to write 1 to 4 parts with 14 separators as a path or a name; all AND/OR formulas of up to 5 conditions (thorough: 6), at the top and in loop bodies, with all truth assignments" + seriesBound(t == "thorough")
		},
		Run: func(c *Ctx) {
			c22Series(c)
			c22Nary(c)
			f, v := fld, vfld
			pairs := [][2]g.Expression{
				{f("a"), cst(1.0)}, {cst(2.0), f("a")}, {f("a"), f("b")}, {f("o", "k"), cst(1.5)}, {f("o", "k"), f("a")},
				{f("s"), cst("x")}, {cst("y"), f("s")}, {f("s"), f("t")}, {f("o", "l"), f("t")}, {cst("\u00e9\n"), f("o", "l")},
				{f("p"), cst(true)}, {cst(false), f("p")}, {f("p"), f("q")}, {f("o", "o", "k"), f("q")},
				{f("n"), f("n")},
			}
			var leaves []g.Expression
			for _, p := range pairs {
				for _, op := range cmpOps {
					leaves = append(leaves, op.mk(p[0], p[1]))
				}
			}
			loops := []g.Expression{
				anyIn(1, f("arr"), eq(v(1, "k"), cst(2.0))),
				anyIn(1, f("arr"), and(eq(v(1, "k"), cst(2.0)), eq(v(1, "s"), cst("x")))),
				anyIn(1, f("arr"), or(gt(v(1, "k"), f("a")), eq(v(1, "s"), f("s")))),
				anyIn(1, f("arr"), lt(v(1, "in", "a"), v(1, "k"))),
				anyIn(1, f("arr"), and(ge(v(1, "in", "a"), v(1, "k")), ne(v(1, "s"), f("t")))),
				anyIn(1, f("nums"), eq(v(1), f("a"))),
				anyIn(1, f("nums"), and(gt(v(1), cst(1.0)), lt(v(1), cst(3.0)))),
				anyIn(1, f("mat"), anyIn(2, v(1), eq(v(2), cst(2.0)))),
				anyIn(1, f("mat"), and(anyIn(2, v(1), eq(v(2), f("a"))), anyIn(2, v(1), eq(v(2), cst(3.0))))),
				anyIn(1, f("arr"), anyIn(2, f("nums"), eq(v(2), v(1, "k")))),
				anyIn(1, f("arr"), anyIn(2, f("mat"), anyIn(3, v(2), gt(v(3), v(1, "k"))))),
				anyIn(1, f("arr"), or(anyIn(2, v(1, "in", "b"), eq(v(2), cst(1.0))), le(v(1, "k"), f("b")))),
				// one variable for both loops
				anyIn(1, f("arr"), or(anyIn(1, f("nums"), gt(v(1), cst(3.0))), gt(v(1, "k"), cst(1.0)))),
				anyIn(1, f("arr"), and(anyIn(1, f("nums"), eq(v(1), f("a"))), eq(v(1, "k"), f("b")))),
				anyIn(1, f("mat"), anyIn(1, v(1), eq(v(1), cst(2.0)))),
			}
			docs := c22Docs(c.Thorough)
			var some [][]byte
			for i := range docs {
				if i%7 == 0 {
					some = append(some, docs[(i*5)%len(docs)])
				}
			}
			one := func(exprs ...g.Expression) {
				c.Do(func() string { return showAll(exprs) }, func() string {
					for _, d := range docs {
						c.State(showAll(exprs), string(d))
					}
					if m := agree(c, exprs, docs, true); m != "" {
						return m
					}
					if m := agree(c, exprs, some, false); m != "" {
						return m
					}
					c.Trace()
					cm := compile(exprs...)
					seen := map[string]bool{}
					for _, d := range docs {
						cm.m.Reset()
						seen[cm.run(d, len(exprs)).each] = true
					}
					if len(seen) > 1 {
						c.NonTrivial()
						c.Outcome("several verdicts")
					} else {
						c.Outcome("one verdict")
					}
					return ""
				})
			}
			for _, l := range leaves {
				one(l)
			}
			for _, l := range loops {
				one(l)
			}
			// pool: loops and comparisons in turn
			var pool []g.Expression
			for i := 0; len(pool) < 40; i++ {
				pool = append(pool, leaves[(i*7)%len(leaves)])
				if i < len(loops) {
					pool = append(pool, loops[i])
				}
			}
			noNot := func(ls []g.Expression) {
				shapes(ls, func(x g.Expression) {
					if !hasNot(x) {
						one(x)
					}
				})
			}
			n3, n3l := 6, 4
			if c.Thorough {
				n3, n3l = 18, 12
			}
			for i := range pool {
				for j := range pool {
					noNot([]g.Expression{pool[i], pool[j]})
					one(pool[i], pool[j])
					for k := 0; i < n3 && j < n3 && k < n3; k++ {
						noNot([]g.Expression{pool[i], pool[j], pool[k]})
						if i < n3l && j < n3l && k < n3l {
							one(pool[i], pool[j], pool[k])
						}
					}
				}
			}
			one(g.TrueExpr{})
			one(g.FalseExpr{})
			one(g.FalseExpr{}, pool[0], g.TrueExpr{})
			one(pool[1], g.FalseExpr{})
			c22Values(c)
			c22Names(c)
			c22Arrays(c)
			// short histories on new instances
			var few [][]byte
			for i := 0; i < 24; i++ {
				few = append(few, docs[(i*37)%len(docs)])
			}
			depth := 2
			if c.Thorough {
				depth = 3
			}
			hist := append(append([]g.Expression{}, pool...), loops...)
			for i := 0; i < 8; i++ {
				hist = append(hist, and(pool[i], or(loops[i], pool[i+3])))
			}
			for _, x := range hist {
				x := x
				c.Do(func() string { return "sequences for " + show(x) }, func() string {
					c.Trace()
					c.NonTrivial()
					c.Outcome("sequences")
					seq := make([][]byte, depth)
					var rec func(i int) string
					rec = func(i int) string {
						if i == depth {
							if m := agree(c, []g.Expression{x}, seq, true); m != "" {
								return m
							}
							return agree(c, []g.Expression{x, eq(fld("s"), cst("x"))}, seq, false)
						}
						for _, d := range few {
							seq[i] = d
							if m := rec(i + 1); m != "" {
								return m
							}
						}
						return ""
					}
					return rec(0)
				})
			}
		},
	})
}

// c22Values compares every value with every other one of its type
func c22Values(c *Ctx) {
	long := strings.Repeat("0123456789", 30)
	strs := []string{"", " ", "x", "x ", " x", "X", "xx", "x\x00", "\x00", "\t", "\n", "x\n", "a", "B", "b", "\"", "\\", "/", "1", "1.0", "01", "-1", "true", "null", "\u00e9", "e\u0301", "\u00c9", "\uffff", "\U00010000", "\U0001F600", "\u2028", "\ue000", "\x7f", "\u0080", long, long + " ", long[:299], "x" + long}
	nums := []string{"0", "-0.0", "0.0", "1", "-1", "1.0", "1e0", "10", "1e1", "0.5", "-0.5", "5e-1", "1.5", "2", "9", "100", "1e2", "99.5", "2147483647", "2147483648", "-2147483649", "4294967296", "9007199254740991", "9007199254740992", "-9007199254740992", "1e15", "1e300", "-1e300", "1E+300", "123456789.25", "0.25", "0.125", "1e-3", "-1e-3"}
	var groups [][]*Val
	var l []*Val
	for _, s := range strs {
		l = append(l, vStr(s))
	}
	groups = append(groups, l)
	l = nil
	for _, s := range nums {
		l = append(l, vNum(s))
	}
	groups = append(groups, l, []*Val{vBool(false), vBool(true)}, []*Val{vNull()})
	for _, vals := range groups {
		vals := vals
		for _, x := range vals {
			x := x
			var k interface{}
			switch x.K {
			case KStr:
				k = x.S
			case KNum:
				k = x.float()
			case KBool:
				k = x.B
			}
			c.Do(func() string { return "values against " + x.String() }, func() string {
				c.Trace()
				c.Outcome("values")
				var docs [][]byte
				for i, y := range vals {
					d := vObj("a", x, "b", y, "arr", vArr(vObj("k", y), vObj("k", x)), "m", vArr(y))
					docs = append(docs, encode(d, layout{}))
					if i%2 == 0 {
						docs = append(docs, encode(d, layout{ws: "\t", strEsc: escUni, rev: true}))
					}
				}
				for _, d := range docs {
					c.State(string(d))
				}
				f, v := fld, vfld
				for _, op := range cmpOps {
					pairs := [][2]g.Expression{{f("a"), f("b")}, {f("b"), f("a")}}
					loops := []g.Expression{anyIn(1, f("m"), op.mk(v(1), f("a"))), anyIn(1, f("arr"), anyIn(2, f("m"), op.mk(v(2), v(1, "k"))))}
					if x.K != KNull || op.name == "=" || op.name == "!=" {
						pairs = append(pairs, [2]g.Expression{f("b"), cst(k)}, [2]g.Expression{cst(k), f("b")})
						loops = append(loops, anyIn(1, f("m"), op.mk(v(1), cst(k))), anyIn(1, f("arr"), and(op.mk(v(1, "k"), cst(k)), eq(v(1, "k"), f("b")))))
					}
					var exprs []g.Expression
					for _, p := range pairs {
						exprs = append(exprs, op.mk(p[0], p[1]))
					}
					exprs = append(exprs, loops...)
					for i := 0; i < len(exprs); i++ {
						if m := agree(c, exprs[i:i+1], docs, true); m != "" {
							return m
						}
					}
					if m := agree(c, exprs, docs, false); m != "" {
						return m
					}
				}
				c.NonTrivial()
				return ""
			})
		}
	}
}

func hasNot(x g.Expression) bool {
	switch x := x.(type) {
	case g.NotExpr:
		return true
	case g.AndExpr:
		for _, s := range x {
			if hasNot(s) {
				return true
			}
		}
	case g.OrExpr:
		for _, s := range x {
			if hasNot(s) {
				return true
			}
		}
	}
	return false
}
