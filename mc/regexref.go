package main

import (
	"regexp"

	g "github.com/couchbaselabs/gojsonsm"
)

var regexCache = map[string]*regexp.Regexp{}

func regexRef(x g.Expression, s string) bool {
	r, ok := x.(g.RegexExpr)
	if !ok {
		return false
	}
	p := r.Regex.(string)
	re := regexCache[p]
	if re == nil {
		re = regexp.MustCompile(p)
		regexCache[p] = re
	}
	return re.MatchString(s)
}
