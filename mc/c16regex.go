package main

import "strconv"

// c16Regex: patterns, valid or not, as constants of REGEXP_CONTAINS.
func c16Regex(c *Ctx, group func(name string, f func(try func(string) bool))) {
	alpha := []string{`\`, "^", "$", ".", "*", "+", "?", "(", ")", "[", "]", "{", "}", "|", "a", "1", ",", "-", "P", "x", ":", "é"}
	texts := func(p string) []string {
		q := strconv.Quote(p)
		return []string{"REGEXP_CONTAINS(a, " + q + ")", "b = 1 OR NOT REGEXP_CONTAINS ( a.b , " + q + " )"}
	}
	for i, x := range alpha {
		for j, y := range append([]string{""}, alpha...) {
			i, j, x, y := i, j, x, y
			group("patterns beginning with "+x+y, func(try func(string) bool) {
				for k, z := range append([]string{""}, alpha...) {
					if y == "" && z != "" {
						break
					}
					for n, p := range []string{x + y + z, "^" + x + y + z, "^ab" + x + y + z, x + y + z + "$", "(?:" + x + y + z + ")", "(?i)" + x + y + z, "(?" + x + y + z + ")", `\` + x + y + z, "[" + x + y + z + "]", "a{" + x + y + z + "}", `\p{` + x + y + z + "}", "a b" + x + y + z, x + y + "|" + z} {
						if n >= 2 && (i+j+k+n)%7 != 0 && !c.Thorough {
							continue
						}
						if !try(texts(p)[(i+j+k+n)%2]) {
							return
						}
					}
				}
			})
		}
	}
}
