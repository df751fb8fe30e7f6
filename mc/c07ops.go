//go:build mcsched || mcrace

package main

import (
	"fmt"
	"os"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

// c07Def is a definition that matchers share, with documents.
type c07Def struct {
	name  string
	exprs []g.Expression
	docs  []string
}

func c07Defs() []c07Def {
	f, v := fld, vfld
	long := strings.Repeat("0123456789", 7)
	return []c07Def{
		{"compare", []g.Expression{and(eq(f("s"), cst("a\"é")), gt(f("n"), cst(1)))}, []string{`{"s":"a\"\u00e9","n":2}`, `{"n":5,"s":"a\"é"}`, `{"s":"\u0061","n":0}`}},
		{"fields", []g.Expression{or(eq(f("a"), f("b")), lt(f("b"), f("o", "k")))}, []string{`{"a":"x\n","b":"x\u000a","o":{"k":1}}`, `{"b":1,"o":{"k":2},"a":7}`, `{"a":1}`}},
		{"loops", []g.Expression{anyIn(1, f("l"), everyIn(2, v(1), gt(v(2), f("a"))))}, []string{`{"a":1,"l":[[1],[2,3]]}`, `{"a":2,"l":[[1,3],[2]]}`, `{"l":[],"a":0}`}},
		{"loops with fields", []g.Expression{anyEveryIn(1, f("l"), and(eq(v(1, "k"), cst("y")), not(eq(v(1, "n"), f("a")))))}, []string{`{"a":1,"l":[{"k":"y","n":2}]}`, `{"a":2,"l":[{"k":"\u0079","n":2}]}`, `{"l":[{}]}`}},
		{"functions", []g.Expression{le(fn(g.MathFuncAdd, f("a"), fn(g.MathFuncAbs, f("b"))), fn(g.MathFuncMul, f("a"), cst(3)))}, []string{`{"a":1,"b":-2}`, `{"b":5,"a":2}`, `{"a":"x","b":1.5}`}},
		{"dates", []g.Expression{lt(fn(g.DateFunc, f("d")), fn(g.DateFunc, cst("2019-06-01")))}, []string{`{"d":"2019-05-31"}`, `{"d":"2019/06/\u0030\u0031"}`, `{"d":5}`}},
		{"patterns", []g.Expression{g.LikeExpr{Lhs: f("s"), Rhs: g.RegexExpr{Regex: "^x.*z$"}}, not(g.LikeExpr{Lhs: f("t"), Rhs: g.RegexExpr{Regex: "é"}})}, []string{`{"s":"xyz","t":"\u00e9"}`, `{"t":"e","s":"x\u007a"}`, `{"s":1}`}},
		{"several", []g.Expression{eq(f("a"), cst(1)), not(exists(f("b"))), or(eq(f("c"), cst("1")), eq(f("a"), cst(2.5)))}, []string{`{"a":1,"c":1}`, `{"b":0,"a":2.5}`, `{"c":"1"}`}},
		{"types", []g.Expression{and(ge(f("a"), cst(nil)), ne(f("b"), cst(true)), gt(f("c"), cst(2)))}, []string{`{"a":null,"b":1,"c":"3"}`, `{"c":"x","b":"true","a":{}}`, `{"a":0,"b":false,"c":2.0}`}},
		{"escaped names", []g.Expression{and(eq(f("a/b"), cst(1)), eq(f("c/d", "é\n"), cst(2)))}, []string{`{"a\/b":1,"c\/d":{"\u00e9\n":2}}`, `{"x\/y":[{"\"":1}],"c\u002fd":{"\r\n":1,"é\n":2},"a\/b":1}`, `{"\u0061/b":2}`}},
		{"long texts", []g.Expression{or(eq(f("s"), f("t")), anyIn(1, f("l"), gt(v(1, "s"), f("s"))))}, []string{`{"s":"` + long + `\n\u00e9","t":"` + long + `\u000a\u00e9"}`, `{"s":"` + long + `\n","t":"\n` + long + `","l":[{"s":"` + long + `\u000b"}]}`, `{"s":"` + long + `\/"}`}},
		{"numbers", []g.Expression{and(le(f("a"), f("b")), ne(f("c"), cst(1.5)), lt(fn(g.MathFuncRound, fn(g.MathFuncDiv, f("b"), cst(7))), fn(g.MathFuncPow, f("c"), cst(2))))}, []string{`{"a":-9223372036854775808,"b":18446744073709551615,"c":12e10}`, `{"c":1.5e0,"a":"12","b":13}`, `{"a":1e-3,"c":1E3,"b":1}`}},
		{"indices", []g.Expression{and(eq(f("l", "[1]"), cst(-1.5)), notExists(f("l", "[2]", "k")))}, []string{`{"l":[{},-1.5,{"k":1}]}`, `{"l":[0,-15e-1]}`, `{"l":{"k":1}}`}},
	}
}

type c07Op struct {
	name string
	mk   func(sh *c07Shared) func() string
}

// c07Shared is what the threads of one run share.
type c07Shared struct {
	def   *g.MatchDef
	exprs []g.Expression
	docs  [][]byte
	items []byte
	json  []byte
	slow  []g.Expression
}

func c07Share(d c07Def) *c07Shared {
	sh := &c07Shared{exprs: d.exprs}
	var t g.Transformer
	sh.def = t.Transform(d.exprs)
	for _, s := range d.docs {
		sh.docs = append(sh.docs, []byte(s))
	}
	sh.items = []byte(`{"a":{"k\n":"x\"","r":[1,{"q":2}]},"q":3,"é":null}`)
	sh.json = []byte(`["or",["and",["equals",["field","a"],["value","x"]],["lessthan",["field","b","c"],["value",5]]],["anyin",1,["field","l"],["exists",["field",1,"k"]]]]`)
	sh.slow = []g.Expression{or(and(eq(fld("a"), cst(1)), lt(fld("b"), fld("c"))), anyIn(1, fld("l"), eq(vfld(1, "k"), cst("y"))))}
	return sh
}

func matchOp(d int, again bool) c07Op {
	return c07Op{fmt.Sprintf("match document %d (again: %v)", d, again), func(sh *c07Shared) func() string {
		m := g.NewFastMatcher(sh.def)
		return func() string {
			one := func(doc []byte) string {
				ok, flags, err := m.MatchWithStatus(doc)
				out := fmt.Sprint(ok, flags, err != nil)
				for i := range sh.exprs {
					out += fmt.Sprint(" ", m.ExpressionMatched(i))
				}
				return out
			}
			out := one(sh.docs[d])
			if again {
				m.Reset()
				out += "; " + one(sh.docs[(d+1)%len(sh.docs)])
			}
			return out
		}
	}}
}

// c07Ops are the operations that may run beside each other.
func c07Ops() []c07Op {
	ops := []c07Op{matchOp(0, false), matchOp(1, true)}
	add := func(name string, mk func(sh *c07Shared) func() string) { ops = append(ops, c07Op{name, mk}) }
	add("compile the expressions", func(sh *c07Shared) func() string {
		return func() string {
			var t g.Transformer
			def := t.Transform(sh.exprs)
			m := g.NewFastMatcher(def)
			ok, err := m.Match(sh.docs[0])
			return fmt.Sprint(ok, err)
		}
	})
	add("simplify, print and count", func(sh *c07Shared) func() string {
		return func() string {
			var out []string
			for _, x := range sh.exprs {
				out = append(out, dumpE(g.CompactExpression(x)), x.String())
			}
			var stats g.ExpressionStats
			err := stats.Scan(sh.slow[0])
			return strings.Join(append(out, stats.String(), fmt.Sprint(err, sh.def.String() != "")), "\n")
		}
	})
	parse := func(text string) {
		add("filter text "+text, func(sh *c07Shared) func() string {
			return func() string {
				_, fe, err := g.NewFilterExpressionParser(text)
				if err != nil {
					return "error " + err.Error()
				}
				x, err := fe.OutputExpression()
				return dumpE(x) + fmt.Sprint(err)
			}
		})
	}
	parse("a.`b c`[1] >= POW(2,x) - 1 AND NOT DATE(d) = DATE(\"2019-01-01\")")
	parse(`REGEXP_CONTAINS(s, "^x") OR k IS NOT NULL`)
	simple := func(text string) {
		add("simple text "+text, func(sh *c07Shared) func() string {
			return func() string {
				x, err := g.ParseSimpleExpression(text)
				return dumpE(x) + fmt.Sprint(err)
			}
		})
	}
	simple("a.b[0] >= ABS(`x y`) && s IS NOT NULL")
	simple(`s NOT LIKE "^x y" || PI() > 1`)
	add("read JSON", func(sh *c07Shared) func() string {
		return func() string {
			x, err := g.ParseJsonExpression(sh.json)
			return dumpE(x) + fmt.Sprint(err)
		}
	})
	add("remove items", func(sh *c07Shared) func() string {
		return func() string {
			dst := make([]byte, len(sh.items))
			removed := map[string][]byte{}
			n, k, cut, err := g.MatchAndRemoveItemsFromJsonObject(sh.items, []string{"k\n", "q"}, dst, removed)
			return fmt.Sprintf("%d %d %v %v %q %q %q", n, k, cut, err, dst, removed["k\n"], removed["q"])
		}
	})
	add("slow matcher", func(sh *c07Shared) func() string {
		m := g.NewSlowMatcher(sh.slow)
		return func() string {
			ok, err := m.Match([]byte(`{"a":2,"l":[{"k":"y"}]}`))
			return fmt.Sprint(ok, err)
		}
	})
	add("make a matcher from text", func(sh *c07Shared) func() string {
		return func() string {
			m, err := g.GetFilterExpressionMatcher("a > 1 AND s LIKE \"x%\"")
			if err != nil {
				return "error " + err.Error()
			}
			ok, err := m.Match(sh.docs[0])
			return fmt.Sprint(ok, err)
		}
	})
	return ops
}

func raceBinary() string { return os.Getenv("MC_RACE") }
