package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"

	g "github.com/couchbaselabs/gojsonsm"
)

// oddNames are names with every character at their beginning, in their middle, at their end, alone, and twice; and
// names that are words of the language.
func oddNames(not string) []string {
	var out []string
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] && s != "" {
			seen[s] = true
			out = append(out, s)
		}
	}
	var chars []string
	for ch := rune(1); ch < 0x7f; ch++ {
		if ch >= 0x20 || ch == '\t' || ch == '\n' {
			chars = append(chars, string(ch))
		}
	}
	chars = append(chars, "\u00e9", "\u00a0", "\u2028", "\uffff", "\U0001F600", "e\u0301")
	for _, ch := range chars {
		if strings.Contains(not, ch) {
			continue
		}
		for _, s := range []string{ch, ch + "x", "x" + ch, "x" + ch + "y", "x" + ch + ch + "y", "x " + ch + " y"} {
			add(s)
		}
	}
	for _, s := range []string{"AND", "OR", "NOT", "IS", "NULL", "MISSING", "EXISTS", "LIKE", "TRUE", "FALSE", "true", "false", "null", "ABS", "POW", "PI", "E", "META", "DATE", "REGEXP_CONTAINS", "ABS(x)", "PI()", "META()", "1", "-1", "1.5", "0", "007", "1e3", "[0]", "x[0]", "a.b", "a.b[1]", "a AND b", "a OR b", "x AND", "OR x", "IS NULL", "x == 1", "x=1", "&&", "||", "a && b", "(x)", "( x )", "x (", ") x", "\\n", "\\u0041", "//", "/* x */", "x // y", "x /* y */ z", "$1", "$doc", "#", "--", "%d", "%s", "  ", " x ", "x  y", strings.Repeat("n", 300), strings.Repeat("n ", 70) + "n"} {
		if !strings.ContainsAny(s, not) {
			add(s)
		}
	}
	return out
}

// nearStrings are strings that s could be mistaken for.
func nearStrings(s string) []string {
	var out []string
	seen := map[string]bool{s: true}
	add := func(t string) {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	add(strings.TrimSpace(s))
	add(strings.TrimLeftFunc(s, unicode.IsSpace))
	add(strings.TrimRightFunc(s, unicode.IsSpace))
	add(strings.Join(strings.Fields(s), " "))
	add(strings.ToLower(s))
	add(strings.ToUpper(s))
	add(s + " ")
	add(" " + s)
	add(s + "x")
	add(strings.ReplaceAll(s, "\t", " "))
	add(strings.ReplaceAll(s, "\n", " "))
	add(strings.ReplaceAll(s, "\\", ""))
	add(strings.ReplaceAll(s, "\\n", "\n"))
	add(strings.ReplaceAll(s, "\\u0041", "A"))
	add("`" + s + "`")
	add(`"` + s + `"`)
	if r := []rune(s); len(r) > 1 && len(r) < 8 {
		for i := range r {
			add(string(r[:i]) + string(r[i+1:]))
		}
	}
	if len(s) > 200 {
		add(s[:255])
		add(s[:len(s)-1])
	}
	return out
}

// nameCases compares fields with odd names with a number, at several places of a text: quote writes a name.
func nameCases(c *Ctx, eqs string, quote func(name string) string, not string, refused func(name string) bool, parse func(text string) (g.Expression, error, string)) {
	for _, name := range oddNames(not) {
		name := name
		c.Do(func() string { return fmt.Sprintf("name %q", name) }, func() string {
			var docs []docText
			add := func(v *Val) { docs = append(docs, docText{v, encode(v, layout{})}) }
			for _, n := range append(nearStrings(name), name) {
				if n == "" {
					continue
				}
				add(vObj(n, vNum("1")))
				if n != name {
					add(vObj(n, vNum("1"), name, vNum("2")))
				}
				add(vObj("o", vObj(n, vNum("1"))))
				add(vObj(n, vObj("k", vNum("1"))))
				add(vObj(n, vArr(vNum("1"), vNum("2"))))
			}
			for _, s := range strings.Split(name, ".") {
				if s != name && s != "" {
					add(vObj(s, vNum("1")))
				}
			}
			if i := strings.Index(name, "."); i > 0 && i < len(name)-1 {
				add(vObj(name[:i], vObj(name[i+1:], vNum("1"))))
				add(vObj("o", vObj(name[:i], vObj(name[i+1:], vNum("1")))))
			}
			q := quote(name)
			for _, t := range []struct {
				text string
				x    g.Expression
			}{
				{q + " " + eqs + " 1", eq(fld(name), cst(1))},
				{"o." + q + " " + eqs + " 1", eq(fld("o", name), cst(1))},
				{q + ".k " + eqs + " 1", eq(fld(name, "k"), cst(1))},
				{q + "[0] " + eqs + " 1", eq(fld(name, "[0]"), cst(1))},
				{"zz " + eqs + " 5 OR " + q + " " + eqs + " 1", or(eq(fld("zz"), cst(5)), eq(fld(name), cst(1)))},
				{q + " " + eqs + " 1 AND " + q + " < 2", and(eq(fld(name), cst(1)), lt(fld(name), cst(2)))},
			} {
				c.Trans(1)
				c.State(t.text)
				x, err, msg := parse(t.text)
				if msg != "" {
					return fmt.Sprintf("%q: %s", t.text, msg)
				}
				if err != nil {
					if refused(name) {
						c.Outcome("odd name refused")
						continue
					}
					return fmt.Sprintf("%q: error %v", t.text, err)
				}
				c.NonTrivial()
				cm := compile(x)
				for _, d := range docs {
					c.Trace()
					if msg := checkDoc(c, t.x, cm, d.v, d.text); msg != "" {
						return fmt.Sprintf("%q: %s", t.text, msg)
					}
				}
			}
			c.Outcome("odd name")
			return ""
		})
	}
}

// stringCases compares a field with odd strings: quotes are the ways to write one, nil where there is none.
func stringCases(c *Ctx, eqs string, quotes []func(s string) (string, bool), parse func(text string) (g.Expression, error, string)) {
	for _, s := range oddNames("") {
		s := s
		c.Do(func() string { return fmt.Sprintf("string %q", s) }, func() string {
			var docs []docText
			for i, n := range append(nearStrings(s), s) {
				v := vObj("a", vStr(n))
				docs = append(docs, docText{v, encode(v, layout{strEsc: []int{escMin, escUni}[i%2]})})
			}
			for _, quote := range quotes {
				q, ok := quote(s)
				if !ok {
					continue
				}
				for _, t := range []struct {
					text string
					x    g.Expression
				}{
					{"a " + eqs + " " + q, eq(fld("a"), cst(s))},
					{"a != " + q, ne(fld("a"), cst(s))},
					{"zz " + eqs + " 5 OR a " + eqs + " " + q, or(eq(fld("zz"), cst(5)), eq(fld("a"), cst(s)))},
					{"a " + eqs + " " + q + " AND a <= " + q, and(eq(fld("a"), cst(s)), le(fld("a"), cst(s)))},
				} {
					c.Trans(1)
					c.State(t.text)
					x, err, msg := parse(t.text)
					if msg != "" {
						return fmt.Sprintf("%q: %s", t.text, msg)
					}
					if err != nil {
						return fmt.Sprintf("%q: error %v", t.text, err)
					}
					c.NonTrivial()
					cm := compile(x)
					for _, d := range docs {
						c.Trace()
						if msg := checkDoc(c, t.x, cm, d.v, d.text); msg != "" {
							return fmt.Sprintf("%q: %s", t.text, msg)
						}
					}
				}
			}
			c.Outcome("odd string")
			return ""
		})
	}
}

func looksLikeNumber(s string) bool {
	_, err := strconv.ParseFloat(s, 64)
	return err == nil
}

// feNotTruth is false for the quoted words that stand for true and false.
func feNotTruth(s string) bool { return strings.ToUpper(s) != "TRUE" && strings.ToUpper(s) != "FALSE" }

// quotedOperators are texts of which one operator, keyword or punctuation character is put in quotes: it becomes a
// value or a name, and the text has no meaning.
func quotedOperators(c *Ctx, parse func(text string) (g.Expression, error, string)) {
	const op = " AND OR NOT IS NULL MISSING EXISTS ABS POW PI E META DATE REGEXP_CONTAINS ATAN2 = == < > ! <> != <= >= + - * / % ( ) , . [ ] "
	for _, text := range []string{
		"a = 1 AND b = 2", "a = 1 OR b = 2", "NOT a = 1", "NOT a = 1 AND b = 2 OR d = 3", "( a = 1 )", "a = 1 AND ( b = 2 OR d = 3 )", "a == 1", "a = = 1", "a < 1", "a < = 1", "a > 1", "a > = 1", "a ! = 1", "a < > 1",
		"a <= 1", "a >= 1", "a != 1", "a <> 1",
		"a + 1 = 2", "a - 1 = 2", "a * 1 = 2", "a / 1 = 2", "a % 1 = 2", "a + b * 2 = 2", "- a = 1", "a = - 1", "1 + a = 2", "a = - 1.5",
		"o . k = 1", "arr [ 0 ] = 1", "arr [ 0 ] . k [ 1 ] = 1", "a IS NULL", "a IS NOT NULL", "a IS MISSING", "a IS NOT MISSING", "EXISTS ( a )", "NOT EXISTS ( a )", "EXISTS ( o . k )",
		"ABS ( a ) = 1", "POW ( a , b ) = 1", "ATAN2 ( a , 2 ) = 1", "PI ( ) > a", "E ( ) > a", "a < PI ( )", "META ( ) . k = 1", "DATE ( a ) = DATE ( x )", "REGEXP_CONTAINS ( a , x )", "- ABS ( a ) = 1", "POW ( ABS ( a ) , 2 ) = 1",
	} {
		toks := strings.Split(text, " ")
		for i, tok := range toks {
			if !strings.Contains(op, " "+tok+" ") {
				continue
			}
			for _, quote := range []string{"`", `"`, "'"} {
				part := append([]string{}, toks...)
				part[i] = quote + tok + quote
				text := strings.Join(part, " ")
				c.Do(func() string { return fmt.Sprintf("quoted operator %q", text) }, func() string {
					c.Trans(1)
					c.State(text)
					c.Trace()
					c.NonTrivial()
					c.Outcome("quoted operator")
					x, err, msg := parse(text)
					if msg != "" {
						return fmt.Sprintf("%q: %s", text, msg)
					}
					if err == nil {
						return fmt.Sprintf("%q: should be refused, was read as %s", text, show(x))
					}
					return ""
				})
			}
		}
	}
}
