//go:build mcsched || mcrace

package main

import (
	"fmt"
	"hash/fnv"

	g "github.com/couchbaselabs/gojsonsm"
)

// c07Wide are operations over everything there is of a kind; pairs of them run freely.
func c07Wide() []c07Op {
	var ops []c07Op
	add := func(name string, run func(one func(s string))) {
		ops = append(ops, c07Op{name, func(*c07Shared) func() string {
			return func() string {
				h := fnv.New64a()
				n := 0
				run(func(s string) { n++; h.Write([]byte(s)); h.Write([]byte{0}) })
				return fmt.Sprintf("%d results, %x", n, h.Sum64())
			}
		}})
	}
	var docs [][]byte
	strange := c25Strange()
	for i, s := range strange {
		if i > 500 || i%10 == 0 {
			docs = append(docs, []byte(`{"a":`+s+`,"arr":[`+s+`],"b":`+strange[(i*7+3)%len(strange)]+`}`))
		}
	}
	for i, d := range []string{`"2019-01-02T01:02:03Z"`, `"12"`, `"1.5"`, `1.25`, `18446744073709551615`, `-1`, `true`, `"true"`, `"x\n"`} {
		for _, e := range []string{`"2018"`, `"12"`, `1.25`, `12`, `false`, `null`} {
			docs = append(docs, []byte(fmt.Sprintf(`{"a":%s,"b":%s,"arr":[%d]}`, d, e, i)))
		}
	}
	conv := c25Conversions()
	a, b := fld("a"), fld("b")
	for _, v := range []interface{}{"1.25E+00", "18446744073709551615", uint64(3), "true", 2.5, "", "x\n", int64(-5), false} {
		conv = append(conv, eq(a, cst(v)), lt(cst(v), b))
	}
	conv = append(conv, gt(a, g.TimeExpr{Time: "2019"}), eq(a, g.TimeExpr{Time: "2019-01-02T01:02:03Z"}), ne(a, b), ge(b, a))
	defs := make([]*g.MatchDef, len(conv))
	for i, x := range conv {
		var t g.Transformer
		defs[i] = t.Transform([]g.Expression{x})
	}
	add("all conversions", func(one func(string)) {
		for i := range conv {
			m := g.NewFastMatcher(defs[i])
			for _, d := range docs {
				m.Reset()
				one(full(m, d, 1))
			}
		}
	})
	var cd [][]byte
	for i, d := range corpusDocs() {
		cd = append(cd, encode(d, layout{strEsc: []int{escMin, escUni, escMixed, escUpper}[i%4], keyEsc: []int{escMin, escMixed}[i%2]}))
	}
	for _, s := range malformedDocs() {
		cd = append(cd, []byte(s))
	}
	ex := corpusExprs()
	for _, n := range []int{9, 33} {
		series(n, func(s sized) { ex = append(ex, s.x) })
	}
	add("compile, print and match the corpus", func(one func(string)) {
		for _, x := range ex {
			var t g.Transformer
			def := t.Transform([]g.Expression{x})
			m := g.NewFastMatcher(def)
			for _, d := range cd {
				m.Reset()
				one(full(m, d, 1))
			}
			var st g.ExpressionStats
			st.Scan(x)
			one(x.String() + st.String() + dumpE(g.CompactExpression(x)))
			if def.ParseNode != nil {
				one(fmt.Sprint(len(def.String())))
			}
		}
	})
	var fe []string
	k := 0
	c15All(&Ctx{}, func(t feText, mode int, _ []docText) {
		if k++; k%13 == 0 && len(fe) < 600 {
			fe = append(fe, feJoin(t.toks, mode))
		}
	})
	fe = append(fe, `a = `, `a LIKE "x%"`, `REGEXP_CONTAINS(a, "[")`, `REGEXP_CONTAINS(a, "(?=x)")`, `DATE(a) > DATE("x")`, `NOT`, ``, "`", `a = 99999999999999999999`)
	add("filter texts", func(one func(string)) {
		for _, text := range fe {
			_, f, err := g.NewFilterExpressionParser(text)
			if err != nil {
				one("error " + err.Error())
				continue
			}
			x, err := f.OutputExpression()
			one(f.String() + dumpE(x) + fmt.Sprint(err))
		}
	})
	var sp []string
	for i, x := range spConds() {
		sp = append(sp, spJoin(x.toks, i%3))
		if i > 0 {
			sp = append(sp, spJoin(append(append(append([]string{}, spConds()[i-1].toks...), []string{"&&", "||"}[i%2]), x.toks...), i%3))
		}
		if len(sp) > 400 {
			break
		}
	}
	add("simple texts", func(one func(string)) {
		for _, text := range sp {
			x, err := g.ParseSimpleExpression(text)
			one(dumpE(x) + fmt.Sprint(err))
		}
	})
	js := jsonExprTexts()
	add("JSON texts", func(one func(string)) {
		for _, text := range js {
			x, err := g.ParseJsonExpression([]byte(text))
			one(dumpE(x) + fmt.Sprint(err))
		}
	})
	objs := []string{`{"a":1,"b":[{"a":2}],"c":{"a":{"b":3},"d":"x\"y"}}`, `{"\u0061":"é","b" : null }`, `{"b":[1,2,{"c":[]}]}`, `{}`, `{"a":`, `{"a":1}}`, `[1]`, `{"d":"a","a":"d"}`}
	add("removals", func(one func(string)) {
		for _, o := range objs {
			for _, keys := range keyLists(false) {
				for size := 0; size < 3; size++ {
					dst := make([]byte, len(o)*size/2)
					rem := map[string][]byte{}
					n, cnt, left, err := g.MatchAndRemoveItemsFromJsonObject([]byte(o), keys, dst, rem)
					one(fmt.Sprintf("%d %d %v %v %q %v", n, cnt, left, err, dst, rem))
				}
			}
		}
	})
	vals := []*Val{vNull(), vBool(true), vBool(false), vNum("0"), vNum("1.5"), vNum("-1e300"), vStr(""), vStr("x"), vStr("é\n")}
	add("slow matcher", func(one func(string)) {
		for _, v := range vals {
			for _, op := range cmpOps {
				m := g.NewSlowMatcher([]g.Expression{op.mk(fld("a"), fld("b")), anyIn(1, fld("arr"), op.mk(vfld(1), fld("a")))})
				for _, w := range vals {
					m.Reset()
					ok, err := m.Match([]byte(vObj("a", v, "b", w, "arr", vArr(w, v)).String()))
					one(fmt.Sprint(ok, err))
				}
			}
		}
	})
	return ops
}
