package main

import (
	"fmt"
	"time"

	g "github.com/couchbaselabs/gojsonsm"
)

// oddDate: texts whose reading the property leaves open (one-digit hours, decimal commas,
// zone offsets of 24 hours or 60 minutes).
func oddDate(s string) bool {
	if len(s) < 12 || s[10] != 'T' {
		return false
	}
	colons := 0
	for i := 11; i < len(s); i++ {
		if s[i] == ',' {
			return true
		}
		if s[i] == ':' {
			if colons == 0 && i == 12 {
				return true
			}
			colons++
		}
		if (s[i] == '+' || s[i] == '-') && len(s)-i == 6 {
			h, a := digits(s[i+1:i+3], 2)
			m, b := digits(s[i+4:], 2)
			if a && b && (h == 24 || m == 60) {
				return true
			}
		}
	}
	return false
}

type dateOps struct {
	cms []*compiled
	xs  []g.Expression
}

func newDateOps(l, r g.Expression) *dateOps {
	d := &dateOps{}
	for _, op := range cmpOps {
		x := op.mk(l, r)
		d.xs = append(d.xs, x)
		d.cms = append(d.cms, compile(x))
	}
	return d
}

// check runs all operators over a document.
func (d *dateOps) check(c *Ctx, doc *Val, l layout) string {
	text := encode(doc, l)
	c.State(string(text))
	for i, x := range d.xs {
		want, known, flags := meaning(x, doc)
		if !known {
			c.Note("unspecified")
			continue
		}
		d.cms[i].m.Reset()
		c.Trans(1)
		o := d.cms[i].run(text, 1)
		wf := g.MatcherNoStatus
		if flags > 0 {
			wf = g.MatcherCollateUsed
		}
		if o.err || o.match != want || (o.each == "1") != want || o.flags != wf {
			return fmt.Sprintf("%s on %s: got %v, should be %v with flags %d", show(x), text, o, want, wf)
		}
	}
	return ""
}

var c23Pool = []string{"1900", "1969", "1970", "1999", "2000", "2019", "2020", "2099", "1970-01", "2019-12", "2020/02", "2020.03", "2000 01",
	"1970-01-01", "2020-02-29", "2019/02/28", "2020.02.28", "2000 12 31", "2001-01-01", "1999-12-31", "2019-01/18",
	"2019-01-18 00:00:00", "2019/01/18 23:59:59", "2019.01.19  00:00:00", "2020-02-29 23:59:59", "2020-03-01 00:00:00",
	"2019-01-18T00:00:00Z", "2019-01-18T23:59:59.999Z", "2019-01-18T23:59:59.9999999999Z", "2019-01-19T00:00:00Z", "2019-01-18T19:00:00-05:00", "2019-01-19T05:30:00+05:30",
	"2019-01-18T00:00:00.000000001Z", "1969-12-31T23:59:59.5Z", "1970-01-01T00:00:00.0+00:00", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "1899-12-31T23:59:59Z", "2100-01-01T00:00:00Z", "2020-02-29T12:00:00-23:59", "0000-03-01T00:00:00+23:59"}

var c23Bad = []string{"", "x", "20", "201", "20190", "1899", "2100", "2019-", "2019-1", "2019-00", "2019-13", "2019-02-29", "1900-02-29", "2100-01-01", "2019-04-31", "2019-1-1", "2019-01-1", "2019-01-01T", "2019-01-01 27:59:59", "2019-01-01 23:60:59", "2019-01-01 23:59:60", "2019-01-01 1:00:00", "2019-01-01 01:00", "2019-01-01 01:00:00Z", "2019-01-01T01:00:00", "2019-01-01T01:00Z", "2019-01-01T24:00:00Z", "2019-01-01T01:00:00z", "2019-01-01T01:00:00+0100", "2019-01-01T01:00:00.Z", "2019_01_01", " 2019", "2019 ", "2019-01-01\n", "2019\n", "+2019", "2019-01-01-01:02:03", "2010-07-2220:22:20Z", "20190101", "2019-01-01T00:00:00ZZ", "２０１９", "true", "1e3", "null", "99999-01-01T00:00:00Z", "-2019-01-01T00:00:00Z"}

func init() {
	register(&Check{
		ID:    "C23",
		Rule:  "case = one month, one group of texts (all hours and minutes, all zone offsets, ...), or one text with all others; every comparison operator between DATE of two fields, and of a field and a constant, is matched and compared (verdict and status flag) with the order of instants computed by an own calendar; non-trivial: a group that contains dates; states = distinct documents",
		Assum: []string{"one-digit hours, decimal commas, zone offsets of 24 hours or 60 minutes are left open", "a text that is not a date is a value below every date, equal to nothing, and comparing it sets the status flag"},
		Bound: func(t string) string {
			if t == "thorough" {
				return "every day of 1900-2099 in 5 forms with its neighbour days; all 4-digit month/day combinations in 9 years; every second of a day in 2 forms; every zone offset -99:99..+99:99; fractions of 0..12 digits; all pairs and triples of edits (10 bytes) of 12 texts; all pairs of 87 texts; about 1400 constants in the three filter and expression languages, compared with documents up to one nanosecond away"
			}
			return "every day of 1900-2099 in 5 forms with its neighbour days; all 4-digit month/day combinations in 5 years; every minute of a day and every second of an hour in 2 forms; every zone offset -99:99..+99:99; fractions of 0..12 digits; all single edits (18 bytes) of 12 texts; all pairs of 87 texts; about 1400 constants in the three filter and expression languages, compared with documents up to one nanosecond away"
		},
		Run: func(c *Ctx) {
			df := func(x g.Expression) g.Expression { return fn(g.DateFunc, x) }
			ff := newDateOps(df(fld("d")), df(fld("e")))
			rfc := func(t time.Time) string {
				s := t.UTC()
				n := ""
				if ns := s.Nanosecond(); ns != 0 {
					n = fmt.Sprintf(".%09d", ns)
				}
				return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%sZ", s.Year(), int(s.Month()), s.Day(), s.Hour(), s.Minute(), s.Second(), n)
			}
			// text compares every text with the instant it should be, and its neighbours
			lays := []layout{{}, {strEsc: escUni, rev: true}, {strEsc: escMixed, ws: " "}}
			i := 0
			text := func(s string) string {
				if oddDate(s) {
					c.Note("left open")
					return ""
				}
				i++
				l := lays[i%len(lays)]
				t, ok := dateOf(s)
				if !ok {
					for _, o := range []string{"2019-01-01", "0001-01-01T00:00:00Z", s} {
						if m := ff.check(c, vObj("d", vStr(s), "e", vStr(o)), l); m != "" {
							return m
						}
						if m := ff.check(c, vObj("d", vStr(o), "e", vStr(s)), l); m != "" {
							return m
						}
					}
					c.Note("not a date")
					return ""
				}
				c.Note("date")
				for _, d := range []time.Duration{0, 1, -1} {
					u := t.Add(d)
					if u.Year() > 9999 || u.Year() < 0 {
						continue
					}
					if m := ff.check(c, vObj("d", vStr(s), "e", vStr(rfc(u))), l); m != "" {
						return m
					}
				}
				return ""
			}
			done := func(name string) {
				c.NonTrivial()
				c.Trace()
				c.Outcome(name)
			}
			group := func(name string, f func(try func(format string, a ...interface{}) bool)) {
				c.Do(func() string { return name }, func() (msg string) {
					done("texts")
					f(func(format string, a ...interface{}) bool {
						msg = text(fmt.Sprintf(format, a...))
						return msg == ""
					})
					return msg
				})
			}
			for y := 1900; y < 2100; y++ {
				for m := 1; m <= 12; m++ {
					y, m := y, m
					c.Do(func() string { return fmt.Sprintf("month %04d-%02d", y, m) }, func() string {
						done("months")
						if msg := text(fmt.Sprintf("%04d%c%02d", y, "-/. "[m%4], m)); msg != "" {
							return msg
						}
						if msg := text(fmt.Sprintf("%04d", y)); m == 1 && msg != "" {
							return msg
						}
						for d := 1; d <= daysIn(y, m); d++ {
							sep := "-/. "[d%4]
							forms := []string{fmt.Sprintf("%04d-%02d-%02d", y, m, d), fmt.Sprintf("%04d%c%02d%c%02d", y, sep, m, sep, d),
								fmt.Sprintf("%04d%c%02d%c%02d 00:00:00", y, sep, m, sep, d), fmt.Sprintf("%04d-%02d-%02dT00:00:00Z", y, m, d), fmt.Sprintf("%04d-%02d-%02dT05:30:00+05:30", y, m, d)}
							next := instant(y, m, d, 0, 0, 0, 0, 0).Add(24 * time.Hour)
							nd := fmt.Sprintf("%04d-%02d-%02d", next.Year(), int(next.Month()), next.Day())
							for fi, f := range forms {
								if msg := text(f); msg != "" {
									return msg
								}
								if msg := ff.check(c, vObj("d", vStr(f), "e", vStr(forms[(fi+1)%len(forms)])), layout{}); msg != "" {
									return msg
								}
								if next.Year() < 2100 {
									if msg := ff.check(c, vObj("d", vStr(f), "e", vStr(nd)), layout{}); msg != "" {
										return msg
									}
								}
							}
						}
						return ""
					})
				}
			}
			years := []int{1900, 2000, 2019, 2020, 2100}
			if c.Thorough {
				years = append(years, 1899, 2099, 1904, 0)
			}
			for _, y := range years {
				for m := 0; m < 100; m++ {
					y, m := y, m
					group(fmt.Sprintf("days of %04d-%02d", y, m), func(try func(string, ...interface{}) bool) {
						if !try("%04d-%02d", y, m) {
							return
						}
						for d := 0; d < 100; d++ {
							if !try("%04d-%02d-%02d", y, m, d) || !try("%04d/%02d.%02d 12:34:56", y, m, d) || !try("%04d-%02d-%02dT12:34:56Z", y, m, d) {
								return
							}
						}
					})
				}
			}
			for h := 0; h < 100; h++ {
				h := h
				group(fmt.Sprintf("minutes of hour %02d", h), func(try func(string, ...interface{}) bool) {
					for mi := 0; mi < 100; mi++ {
						for s := 0; s < 60; s++ {
							if s != 0 && s != 59 && !c.Thorough {
								continue
							}
							if !try("2019-01-18 %02d:%02d:%02d", h, mi, s) || !try("2019-01-18T%02d:%02d:%02d-00:30", h, mi, s) {
								return
							}
						}
					}
				})
				group(fmt.Sprintf("seconds of minute %02d", h), func(try func(string, ...interface{}) bool) {
					for s := 0; s < 100; s++ {
						if !try("2019-01-18 23:%02d:%02d", h, s) || !try("2019-01-18T23:%02d:%02dZ", h, s) {
							return
						}
					}
				})
				group(fmt.Sprintf("zone offsets of %02d hours", h), func(try func(string, ...interface{}) bool) {
					for mi := 0; mi < 100; mi++ {
						if !try("2019-12-31T22:00:01+%02d:%02d", h, mi) || !try("2020-03-01T01:00:01-%02d:%02d", h, mi) {
							return
						}
					}
				})
			}
			for n := 0; n <= 12; n++ {
				n := n
				group(fmt.Sprintf("fractions of %d digits", n), func(try func(string, ...interface{}) bool) {
					for _, d := range []string{"000000000000", "999999999999", "123456789012", "000000001000", "500000000000", "000000000001"} {
						if !try("2019-01-18T23:59:59.%sZ", d[:n]) || !try("1969-12-31T23:59:59.%s-01:00", d[:n]) || !try("2019-01-18 23:59:59.%s", d[:n]) {
							return
						}
					}
				})
			}
			// edits
			edits := []string{"2019", "2019-02", "2020-02-29", "1999/12.31", "2020-02-29 23:59:59", "2019-12-31  00:00:00", "2019-01-18T00:00:00Z", "2019-01-18T23:59:59.5Z", "2020-03-01T05:30:00+05:30", "1970-01-01T00:00:00-00:00", "2000 02 29", "2099.12.31 20:20:20"}
			var edit func(s string, depth int, bytes string, f func(string) string) string
			edit = func(s string, depth int, bytes string, f func(string) string) string {
				if m := f(s); m != "" || depth == 0 {
					return m
				}
				for p := 0; p <= len(s); p++ {
					if p < len(s) {
						if m := edit(s[:p]+s[p+1:], depth-1, bytes, f); m != "" {
							return m
						}
					}
					for _, b := range []byte(bytes) {
						if m := edit(s[:p]+string(rune(b))+s[p:], depth-1, bytes, f); m != "" {
							return m
						}
						if p < len(s) {
							if m := edit(s[:p]+string(rune(b))+s[p+1:], depth-1, bytes, f); m != "" {
								return m
							}
						}
					}
				}
				return ""
			}
			for _, s := range edits {
				s := s
				c.Do(func() string { return "edits of " + s }, func() string {
					done("edits")
					return edit(s, 1, "01239-/. :TZ+az\n\x00\x7f", text)
				})
				if c.Thorough {
					for k := 0; k < 16; k++ {
						k := k
						c.Do(func() string { return fmt.Sprintf("pairs of edits of %s, part %d", s, k) }, func() string {
							done("edits")
							n := 0
							return edit(s, 2, "019- :TZ+x", func(t string) string {
								if n++; n%16 != k {
									return ""
								}
								return text(t)
							})
						})
					}
				}
			}
			c23Readers(c, rfc)
			// all pairs
			all := append(append([]string{}, c23Pool...), c23Bad...)
			docVals := []*Val{vNum("2019"), vNum("-1.5"), vNull(), vBool(true), vArr(vStr("2019")), vObj("d", vStr("2019")), vArr()}
			for _, a := range all {
				a := a
				c.Do(func() string { return fmt.Sprintf("%q and all others", a) }, func() string {
					done("pairs")
					fc, cf := newDateOps(df(fld("d")), df(cst(a))), newDateOps(df(cst(a)), df(fld("d")))
					sets := []*dateOps{fc, cf, newDateOps(df(df(fld("d"))), df(cst(a)))}
					if _, ok := dateOf(a); ok && !(len(a) > 10 && a[10] == ' ') {
						sets = append(sets, newDateOps(df(fld("d")), g.TimeExpr{Time: a}), newDateOps(g.TimeExpr{Time: a}, df(fld("d"))))
					}
					for bi, b := range all {
						if m := ff.check(c, vObj("e", vStr(a), "zz", vStr("2020"), "d", vStr(b)), lays[bi%3]); m != "" {
							return m
						}
						for _, s := range sets {
							if m := s.check(c, vObj("d", vStr(b), "e", vStr("2020")), lays[bi%3]); m != "" {
								return m
							}
						}
					}
					for _, v := range docVals {
						if m := ff.check(c, vObj("e", vStr(a), "d", v), layout{}); m != "" {
							return m
						}
						if m := ff.check(c, vObj("d", vStr(a), "e", v), layout{}); m != "" {
							return m
						}
						for _, s := range sets {
							if m := s.check(c, vObj("d", v), layout{}); m != "" {
								return m
							}
							if m := s.check(c, vObj("e", v), layout{}); m != "" {
								return m
							}
						}
					}
					return ""
				})
			}
		},
	})
}
