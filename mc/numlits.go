package main

import (
	"fmt"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

// numLit is a number as a filter writes it and the constant it stands for.
type numLit struct {
	t string
	v interface{}
}

func numLits(exponents bool) []numLit {
	out := []numLit{
		{"0", 0}, {"1", 1}, {"-1", -1}, {"9", 9}, {"10", 10}, {"127", 127}, {"128", 128}, {"255", 255}, {"256", 256}, {"32768", 32768}, {"65536", 65536}, {"16777216", 16777216}, {"16777217", 16777217},
		{"2147483647", 2147483647}, {"2147483648", 2147483648}, {"-2147483649", -2147483649}, {"4294967296", 4294967296}, {"4294967297", 4294967297}, {"9007199254740992", 9007199254740992}, {"9007199254740993", 9007199254740993}, {"-9007199254740993", -9007199254740993},
		{"1234567890123456789", 1234567890123456789}, {"9223372036854775806", 9223372036854775806}, {"9223372036854775807", 9223372036854775807}, {"-9223372036854775807", -9223372036854775807},
		{"0.5", 0.5}, {"-0.5", -0.5}, {"0.1", 0.1}, {"0.25", 0.25}, {"0.001", 0.001}, {"2.50", 2.5}, {"1.0", 1.0}, {"-7.0", -7.0}, {"1234567.25", 1234567.25}, {"12345678.7", 12345678.7}, {"-98765432.125", -98765432.125}, {"16777217.5", 16777217.5}, {"4294967296.75", 4294967296.75}, {"3.14159265358979", 3.14159265358979}, {"123456789012.5", 123456789012.5}, {"100.00001", 100.00001}, {"0.000015", 0.000015},
	}
	if exponents {
		out = append(out, numLit{"1e3", 1e3}, numLit{"2.5e-3", 2.5e-3}, numLit{"-1.5E2", -1.5e2}, numLit{"1e+2", 1e2}, numLit{"1e10", 1e10}, numLit{"1.25e20", 1.25e20})
	}
	return out
}

// numberCases compares a field with every number, in both orders of size: parse turns "a < 5" into an expression.
func numberCases(c *Ctx, simple bool, parse func(text string) (g.Expression, error, string)) {
	lits := numLits(!simple)
	var docs []docText
	for _, l := range lits {
		for _, t := range []string{l.t, l.t + "0", l.t + ".5", l.t + "1", l.t + "00001"} {
			if strings.Contains(t[len(l.t):], ".") && strings.ContainsAny(l.t, ".eE") || strings.ContainsAny(l.t, "eE") && t != l.t {
				continue
			}
			if len(t) > 1 && t[0] == '0' && t[1] != '.' || len(t) > 18 && t != l.t {
				continue
			}
			v := vObj("a", vNum(t))
			docs = append(docs, docText{v, encode(v, layout{})})
		}
		// the next integers
		if n, ok := l.v.(int); ok && (n > 1000000 || n < -1000000) {
			for _, m := range []int{n - 1, n + 1, -n} {
				if (m < n) != (n < 0) || m == n-1 && n > 0 || m == n+1 && n < 0 || m == -n {
					v := vObj("a", vNum(fmt.Sprint(m)))
					docs = append(docs, docText{v, encode(v, layout{})})
				}
			}
		}
	}
	eqs := "="
	if simple {
		eqs = "=="
	}
	ops := []struct {
		t  string
		mk func(l, r g.Expression) g.Expression
	}{{eqs, eq}, {"!=", ne}, {"<", lt}, {"<=", le}, {">", gt}, {">=", ge}}
	for _, l := range lits {
		for _, o := range ops {
			l, o := l, o
			c.Do(func() string { return fmt.Sprintf("number a %s %s", o.t, l.t) }, func() string {
				text := "a " + o.t + " " + l.t
				x, err, msg := parse(text)
				if msg != "" {
					return fmt.Sprintf("%q: %s", text, msg)
				}
				if err != nil {
					return fmt.Sprintf("%q: error %v", text, err)
				}
				cm := compile(x)
				want := o.mk(fld("a"), cst(l.v))
				for _, d := range docs {
					c.Trace()
					c.State(text, string(d.text))
					if msg := checkDoc(c, want, cm, d.v, d.text); msg != "" {
						return fmt.Sprintf("%q: %s", text, msg)
					}
				}
				c.NonTrivial()
				c.Outcome("number")
				return ""
			})
		}
	}
}
