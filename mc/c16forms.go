package main

import "fmt"

// c16Forms puts every kind of operand at every place an operand can be at, valid there or not.
func c16Forms(c *Ctx, group func(name string, f func(try func(text string) bool))) {
	ops := []string{"a", "a.b[0]", "`x y`", "'e'", "META().id", "- a", "1", "-1", "1.5", "-.5", "0", "99999999999999999999", "1e999", "0x1F", `""`, `"s"`, `"("`, `"(?=x)"`, `"(?i)s|[x"`, `"2019-01-01"`, `"2019-13-45"`, `"\ud800"`, "TRUE", "false", "NULL", "MISSING",
		"PI()", "E()", "-PI()", "ABS(a)", "ABS(1)", `ABS("s")`, "-ABS(-a)", "POW(a,2)", "POW(2,ABS(a))", "ATAN2(1,0)", "DATE(a)", `DATE("2019-01-01")`, `DATE("s")`, "DATE(1)", "DATE(DATE(a))", "SQRT(-1)", "LN(0)", "a+1", "a-b*2", "2/a", "a/0", "a%0", "1%a", "a%1.5", "2+3", `a+"s"`, `REGEXP_CONTAINS(a,"s")`, "EXISTS(a)", "(a)", "( 1 )", "a[0][1]", "a.ABS", "a[ABS(1)]", "ABS()", "PI(1)", "POW(1)"}
	one := []string{"ABS", "ACOS", "ASIN", "ATAN", "CEIL", "COS", "DATE", "DEGREES", "EXP", "FLOOR", "LOG", "LN", "SIN", "TAN", "RADIANS", "ROUND", "SQRT", "EXISTS", "NOT", "PI", "E", "META"}
	two := []string{"POW", "ATAN2", "REGEXP_CONTAINS"}
	cmps := []string{"=", "==", "<>", "!=", "<", "<=", ">", ">="}
	for i, x := range ops {
		i, x := i, x
		group("operand "+x, func(try func(string) bool) {
			if !try(x) || !try("NOT "+x) || !try("("+x+")") {
				return
			}
			for _, s := range []string{" IS NULL", " IS NOT NULL", " IS MISSING", " IS NOT MISSING", " IS TRUE", " EXISTS"} {
				if !try(x+s) || !try("NOT "+x+s+" OR a=1") {
					return
				}
			}
			for _, f := range one {
				for _, t := range []string{"%s(%s)", "%s(%s) = 1", "%s(%s) < b", "b >= %s(%s)", "- %s(%s) != -1", "ABS(%s(%s)) = 1", "%s(%s) IS NULL", "NOT %s(%s) = %[2]s", "%s(%s).id = 1", "%s(%s)[0] = 1", "a + %s(%s) = 1", "%s(%s) + 1 = a", "%s(%s, a) = 1", "EXISTS(%s(%s))", "a = 1 AND %s(%s) = TRUE"} {
					if !try(fmt.Sprintf(t, f, x)) {
						return
					}
				}
			}
		})
		for j, y := range ops {
			j, y := j, y
			group("operands "+x+" and "+y, func(try func(string) bool) {
				for k, op := range cmps {
					if c.Thorough || (i+j+k)%4 == 0 {
						if !try(x + " " + op + " " + y) {
							return
						}
					}
				}
				if !try(x+" = "+y+" OR "+y+" < "+x+" AND NOT "+x+" <> "+y) || !try(x+" "+y) || !try(x+" AND "+y) || !try(x+" OR NOT "+y) {
					return
				}
				for _, op := range []string{"+", "-", "*", "/", "%"} {
					if !try(x+" "+op+" "+y+" = 1") || !try("a <= "+x+" "+op+" "+y) || !try("ABS("+x+op+y+") > 1") {
						return
					}
				}
				for _, f := range two {
					for _, t := range []string{"%s(%s,%s)", "%s(%s , %s) = 1", "a > %s(%s,%s)", "NOT %s(%s,%s)", "-%s(%s,%s) != 0", "ABS(%s(%s,%s)) < 1", "POW(%s(%s,%s),2) = 1", "REGEXP_CONTAINS(%s(%s,%s),\"x\")", "%s(%s,%s) IS NOT NULL"} {
						if !try(fmt.Sprintf(t, f, x, y)) {
							return
						}
					}
				}
			})
		}
	}
}
