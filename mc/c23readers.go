package main

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	g "github.com/couchbaselabs/gojsonsm"
)

// c23Readers: date constants written in the filter languages and in JSON expressions.
func c23Readers(c *Ctx, rfc func(time.Time) string) {
	var texts []string
	add := func(s ...string) { texts = append(texts, s...) }
	add(c23Pool...)
	add(c23Bad...)
	for _, y := range []int{1900, 1999, 2000, 2019, 2024, 2099} {
		for m := 0; m <= 13; m++ {
			for _, d := range []int{0, 1, 28, 29, 30, 31, 32} {
				sep := string("-/. "[(y+m+d)%4])
				add(fmt.Sprintf("%d%s%02d%s%02d", y, sep, m, sep, d), fmt.Sprintf("%d-%02d-%02dT23:59:59.5Z", y, m, d))
			}
			add(fmt.Sprintf("%d-%02d", y, m))
		}
	}
	for n := 1; n <= 12; n++ {
		for _, f := range []string{"000000000000", "000000000001", "123456789012", "999999999999", "100000000000", "000001000000", "000000001000", "500000000005"} {
			add("2019-01-18T12:30:00."+f[:n]+"Z", "2019-01-18T12:30:00."+f[12-n:]+"+02:00")
		}
	}
	for _, h := range []string{"00", "01", "05", "09", "12", "14", "23", "25"} {
		for _, m := range []string{"00", "15", "30", "45", "59", "61"} {
			add("2019-01-01T00:30:00+"+h+":"+m, "2019-12-31T23:30:00-"+h+":"+m, "2019-06-01T"+h+":"+m+":"+m+"Z")
		}
	}
	const part = 20
	for from := 0; from < len(texts); from += part {
		some := texts[from:min(from+part, len(texts))]
		c.Do(func() string { return fmt.Sprintf("constants in filter texts and JSON expressions from %q", some[0]) }, func() string {
			for i, s := range some {
				if oddDate(s) {
					c.Note("left open")
					continue
				}
				t, ok := dateOf(s)
				if ok && len(s) > 10 && s[10] == ' ' {
					c.Note("left open")
					continue
				}
				plain := strings.Trim(s, "0123456789-/.: TZ+") == "" && s != ""
				if !ok {
					type reader struct {
						name string
						err  error
					}
					_, e2 := g.ParseJsonExpression([]byte(`["equals",["field","d"],["time",` + quoteJSON(s) + `]]`))
					_, e1 := g.GetFilterExpressionMatcher("DATE(d) = DATE(" + strconv.Quote(s) + ")")
					rs := []reader{{"filter", e1}, {"JSON", e2}}
					if plain {
						_, e3 := g.ParseSimpleExpression("DATE(d) = DATE(\"" + s + "\")")
						rs = append(rs, reader{"simple", e3})
					}
					for _, r := range rs {
						c.Trans(1)
						if r.err == nil {
							return fmt.Sprintf("the %s reader accepts %q, which is not a date", r.name, s)
						}
					}
					c.Note("not a date")
					c.State("reader", s)
					continue
				}
				c.Note("date")
				var docs []*Val
				for _, d := range []time.Duration{0, 1, -1, time.Microsecond, -time.Microsecond, time.Second, -time.Second, time.Hour, -24 * time.Hour} {
					if u := t.Add(d); u.Year() >= 0 && u.Year() <= 9999 {
						docs = append(docs, vObj("d", vStr(rfc(u))))
					}
				}
				docs = append(docs, vObj("d", vStr(s)), vObj("d", vStr("x")), vObj())
				for oi, op := range cmpOps {
					if oi%3 != i%3 && !c.Thorough {
						continue
					}
					x := op.mk(fn(g.DateFunc, fld("d")), fn(g.DateFunc, cst(s)))
					sym := map[string]string{"equals": "=", "notequals": "!=", "lessthan": "<", "lessequals": "<=", "greaterthan": ">", "greaterequals": ">="}
					name := jsonOpName(x)
					text := fmt.Sprintf("DATE(d) %s DATE(%q)", sym[name], s)
					read := map[string]g.Expression{}
					_, fe, err := g.NewFilterExpressionParser(text)
					if err == nil {
						read["filter"], err = fe.OutputExpression()
					}
					if err != nil {
						return fmt.Sprintf("%s: the filter parser says %v", text, err)
					}
					if y, err := g.ParseSimpleExpression(text); err == nil {
						read["simple"] = y
					} else if strings.Contains(s, " ") {
						c.Note("refused by the simple parser")
					} else {
						return fmt.Sprintf("%s: the simple parser says %v", text, err)
					}
					js := fmt.Sprintf(`["%s",["func","%s",["field","d"]],["time",%s]]`, name, g.DateFunc, quoteJSON(s))
					if read["JSON"], err = g.ParseJsonExpression([]byte(js)); err != nil {
						return fmt.Sprintf("%s: the reader says %v", js, err)
					}
					for who, y := range read {
						cm := compile(y)
						for _, doc := range docs {
							want, known, _ := meaning(x, doc)
							if !known {
								continue
							}
							cm.m.Reset()
							c.Trans(1)
							if o := cm.run(encode(doc, layout{}), 1); o.err || o.match != want {
								return fmt.Sprintf("%s, read by the %s reader as %s, on %s: got %v, should be %v", text, who, show(y), doc, o, want)
							}
						}
					}
				}
				c.State("reader", s)
				c.NonTrivial()
			}
			c.Trace()
			c.Outcome("constants")
			return ""
		})
	}
}

func quoteJSON(s string) string { return string(encode(vStr(s), layout{})) }

func jsonOpName(x g.Expression) string {
	switch x.(type) {
	case g.EqualsExpr:
		return "equals"
	case g.NotEqualsExpr:
		return "notequals"
	case g.LessThanExpr:
		return "lessthan"
	case g.LessEqualsExpr:
		return "lessequals"
	case g.GreaterThanExpr:
		return "greaterthan"
	}
	return "greaterequals"
}
