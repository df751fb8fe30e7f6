package main

import (
	"fmt"
	"strings"
	"unicode"

	g "github.com/couchbaselabs/gojsonsm"
)

// c24Twins: patterns that look alike, one after another and beside each other in one process.
func c24Twins(c *Ctx) {
	has := func(t string) func(string) bool { return func(s string) bool { return strings.Contains(s, t) } }
	anyOf := func(fs ...func(string) bool) func(string) bool {
		return func(s string) bool {
			for _, f := range fs {
				if f(s) {
					return true
				}
			}
			return false
		}
	}
	pre := func(t string) func(string) bool { return func(s string) bool { return strings.HasPrefix(s, t) } }
	suf := func(t string) func(string) bool { return func(s string) bool { return strings.HasSuffix(s, t) } }
	is := func(t string) func(string) bool { return func(s string) bool { return s == t } }
	all := func(string) bool { return true }
	between := func(a, b string, newline bool) func(string) bool {
		return func(s string) bool {
			r := []rune(s)
			for i := 0; i+2 < len(r); i++ {
				if string(r[i]) == a && string(r[i+2]) == b && (newline || r[i+1] != '\n') {
					return true
				}
			}
			return false
		}
	}
	line := func(t string, start, end bool) func(string) bool { // multi-line anchors
		return func(s string) bool {
			for _, l := range strings.Split(s, "\n") {
				if (!start || strings.HasPrefix(l, t)) && (!end || strings.HasSuffix(l, t)) && (!start || !end || l == t) {
					return true
				}
			}
			return false
		}
	}
	pats := []struct {
		text string
		f    func(string) bool
	}{
		{"x", has("x")}, {" x", has(" x")}, {"x ", has("x ")}, {" x ", has(" x ")}, {"x\n", has("x\n")}, {`x\n`, has("x\n")}, {"x\t", has("x\t")}, {"X", has("X")}, {"(?i)x", anyOf(has("x"), has("X"))}, {"(?i)X", anyOf(has("x"), has("X"))}, {"(?-i)x", has("x")},
		{"^x", pre("x")}, {"x$", suf("x")}, {"^x$", is("x")}, {"(?m)^x", line("x", true, false)}, {"(?m)x$", line("x", false, true)}, {"(?m)^x$", line("x", true, true)}, {`\Ax`, pre("x")}, {`x\z`, suf("x")}, {`\^x`, has("^x")}, {`x\$`, has("x$")},
		{"x|", all}, {"x|y", anyOf(has("x"), has("y"))}, {"y|x", anyOf(has("x"), has("y"))}, {"xy", has("xy")}, {`x\|y`, has("x|y")}, {"[x]", has("x")}, {"[^x]", func(s string) bool { return strings.Trim(s, "x") != "" }}, {"[xy]", anyOf(has("x"), has("y"))}, {"(x)", has("x")}, {`\(x\)`, has("(x)")}, {"(?:x)", has("x")},
		{"x+", has("x")}, {"x?", all}, {"x*", all}, {`x\+`, has("x+")}, {`x\*`, has("x*")}, {`x\?`, has("x?")}, {"x{2}", has("xx")}, {`x\{2}`, has("x{2}")}, {"x{1}", has("x")}, {"xx", has("xx")},
		{"", all}, {"^", all}, {"^$", is("")}, {".", func(s string) bool { return strings.Trim(s, "\n") != "" }}, {`\.`, has(".")}, {"x.y", between("x", "y", false)}, {"(?s)x.y", between("x", "y", true)}, {`x\.y`, has("x.y")}, {"x y", has("x y")}, {"x  y", has("x  y")}, {`x\sy`, anyOf(has("x y"), has("x\ny"), has("x\ty"))}, {"x\ny", has("x\ny")},
		{"é", has("é")}, {"É", has("É")}, {"(?i)é", anyOf(has("é"), has("É"))}, {"e", has("e")}, {`\x{e9}`, has("é")}, {`\xe9`, has("é")}, {`\d`, func(s string) bool { return strings.ContainsAny(s, "0123456789") }}, {"d", has("d")}, {`\D`, func(s string) bool { return strings.Trim(s, "0123456789") != "" }}, {`\\d`, has(`\d`)}, {"1", has("1")}, {`\w`, func(s string) bool {
			return strings.IndexFunc(s, func(r rune) bool { return r == '_' || r < 128 && (unicode.IsLetter(r) || unicode.IsDigit(r)) }) >= 0
		}}, {`\n`, has("\n")}, {"n", has("n")}, {`\\n`, has(`\n`)}, {`"`, has(`"`)}, {`\\`, has(`\`)}, {`/`, has("/")}, {`\x78`, has("x")}, {`\Qx+\E`, has("x+")},
		{"^(x|y)$", anyOf(is("x"), is("y"))}, {"^x|y$", anyOf(pre("x"), suf("y"))}, {"(^x)|(y$)", anyOf(pre("x"), suf("y"))}, {"^(?i)X$", anyOf(is("x"), is("X"))}, {"(?i)^x|Y", anyOf(pre("x"), pre("X"), has("y"))},
	}
	strs := []string{"", "x", "X", " x", "x ", " x ", "x\n", "\nx", "y\nx\ny", "x\t", "xx", "xy", "yx", "y", "x y", "x  y", "x.y", "x\ny", "x\ty", "^x", "x$", "x|y", "(x)", "x+", "x*", "x?", "x{2}", "é", "É", "e", "d", "1", `\d`, `\n`, "\n", "n", `"`, `\`, "/", ".", "_", "ax", "xa", "yxé", "éy", "Xx", "x\r\n", "😀x"}
	var docs []string
	for i, s := range strs {
		t := encStr(s, []int{escMin, escUni, escMixed}[i%3])
		docs = append(docs, `{"s":`+t+`,"t":`+encStr(strs[(i*7+3)%len(strs)], escMin)+`}`)
	}
	like := func(k int, f string) g.Expression {
		return g.LikeExpr{Lhs: fld(f), Rhs: g.RegexExpr{Regex: pats[k].text}}
	}
	for p := range pats {
		for q := range pats {
			p, q := p, q
			c.Do(func() string { return fmt.Sprintf("pattern %q, then %q", pats[p].text, pats[q].text) }, func() string {
				var t g.Transformer
				one := func(xs ...g.Expression) *g.FastMatcher { return g.NewFastMatcher(t.Transform(xs)) }
				ms := []struct {
					m    *g.FastMatcher
					n    int
					want func(s, u string) []bool
				}{
					{one(like(p, "s")), 1, func(s, u string) []bool { return []bool{pats[p].f(s)} }},
					{one(like(q, "s")), 1, func(s, u string) []bool { return []bool{pats[q].f(s)} }},
					{one(like(p, "s"), like(q, "s"), like(p, "t")), 3, func(s, u string) []bool { return []bool{pats[p].f(s), pats[q].f(s), pats[p].f(u)} }},
					{one(and(like(p, "s"), not(like(q, "s")))), 1, func(s, u string) []bool { return []bool{pats[p].f(s) && !pats[q].f(s)} }},
					{one(or(like(q, "t"), like(p, "s"))), 1, func(s, u string) []bool { return []bool{pats[p].f(s) || pats[q].f(u)} }},
				}
				for i, d := range docs {
					for k, m := range ms {
						c.Trans(1)
						m.m.Reset()
						got, err := m.m.Match([]byte(d))
						w := m.want(strs[i], strs[(i*7+3)%len(strs)])
						wany := false
						for j, x := range w {
							wany = wany || x
							if m.n > 1 && m.m.ExpressionMatched(j) != x {
								return fmt.Sprintf("patterns %q, %q, way %d: expression %d on %s should be %v", pats[p].text, pats[q].text, k, j, d, x)
							}
						}
						if err != nil || m.n == 1 && got != wany {
							return fmt.Sprintf("patterns %q, %q, way %d, on %s: %v, error %v; should be %v", pats[p].text, pats[q].text, k, d, got, err, wany)
						}
					}
				}
				c.State(pats[p].text, pats[q].text)
				c.Trace()
				c.NonTrivial()
				c.Outcome("twins")
				return ""
			})
		}
	}
	// many patterns in one process
	for _, n := range []int{300, 1100, 5000} {
		n := n
		if n > 2000 && !c.Thorough {
			continue
		}
		c.Do(func() string { return fmt.Sprintf("%d patterns", n) }, func() string {
			var ms []*g.FastMatcher
			for i := 0; i < n; i++ {
				var t g.Transformer
				ms = append(ms, g.NewFastMatcher(t.Transform([]g.Expression{g.LikeExpr{Lhs: fld("s"), Rhs: g.RegexExpr{Regex: fmt.Sprintf("^k%d[05]?$", i)}}})))
			}
			for round := 0; round < 2; round++ {
				for i, m := range ms {
					for _, k := range []int{i, i + 1, i * 10, i*10 + 5, i*10 + 1, i / 10} {
						m.Reset()
						got, err := m.Match([]byte(fmt.Sprintf(`{"s":"k%d"}`, k)))
						c.Trans(1)
						if want := k == i || k/10 == i && (k%10 == 0 || k%10 == 5) && k >= 10*i && fmt.Sprint(k) != fmt.Sprint(i) && fmt.Sprint(k)[:len(fmt.Sprint(k))-1] == fmt.Sprint(i); err != nil || got != want {
							return fmt.Sprintf("pattern ^k%d[05]?$ (one of %d) on k%d: %v, error %v", i, n, k, got, err)
						}
					}
				}
			}
			c.Trace()
			c.NonTrivial()
			c.Outcome("many patterns")
			return ""
		})
	}
}
