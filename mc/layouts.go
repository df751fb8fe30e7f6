package main

import (
	"fmt"
	"strings"
)

// A layoutPoint is a place in a document's text that may be written in several ways.
// writer walks a value and asks for every place which way to take; 0 is the plain way.

type pointFn func(kind string, n int) int

var gaps = []string{"", " ", "\n", "\t", "\r", " \r\n\t "}

var extraMembers = []string{
	`"zz":1`, `"zz":{"a":1,"b":[1,{"c":"]}"}]}`, `"zz":[[[]],{},"{[\"\\"]`, `"\u007a\n":-0.5E+3`, `"":null`, `"]":"}"`, `"a\u0062\"":true`,
	`"zz":"\ud83d\ude00\\"`, `"zz":"` + strings.Repeat("long ", 30) + `"`, `"zz":18446744073709551616`,
	`"zz":{"a":{"a":{"a":{"a":[{"b":[[[{"c":{}}]]]}]}}}}`,
}

type writer struct {
	b      strings.Builder
	choose pointFn
}

func (w *writer) gap() { w.b.WriteString(gaps[w.choose("gap", len(gaps))]) }

func (w *writer) str(s string) {
	r := []rune(s)
	k := w.choose("str", 4+2*len(r))
	if k < 4 {
		w.b.WriteString(encStr(s, k))
		return
	}
	k -= 4
	w.b.WriteByte('"')
	for i, c := range r {
		mode := escMin
		if i == k/2 {
			mode = escUni
			if k%2 == 1 {
				mode = escUpper
				if i%2 == 1 {
					mode = escMixed
				}
			}
		}
		w.b.WriteString(encRune(c, mode, 1))
	}
	w.b.WriteByte('"')
}

func permutation(n, k int) []int {
	avail := make([]int, n)
	for i := range avail {
		avail[i] = i
	}
	var out []int
	for n > 0 {
		f := 1
		for i := 2; i < n; i++ {
			f *= i
		}
		i := k / f
		k %= f
		out = append(out, avail[i])
		avail = append(avail[:i], avail[i+1:]...)
		n--
	}
	return out
}

func fact(n int) int {
	f := 1
	for i := 2; i <= n; i++ {
		f *= i
	}
	return f
}

func (w *writer) value(v *Val) {
	switch v.K {
	case KStr:
		w.str(v.S)
	case KArr:
		w.b.WriteByte('[')
		w.gap()
		for i, e := range v.Arr {
			if i > 0 {
				w.b.WriteByte(',')
				w.gap()
			}
			w.value(e)
			w.gap()
		}
		w.b.WriteByte(']')
	case KObj:
		n := len(v.Obj)
		var order []int
		if n <= 4 {
			order = permutation(n, w.choose("order", fact(n)))
		} else {
			k := w.choose("order", 2*n)
			for i := 0; i < n; i++ {
				j := (i + k/2) % n
				if k%2 == 1 {
					j = n - 1 - j
				}
				order = append(order, j)
			}
		}
		x := w.choose("extra", 1+(n+1)*len(extraMembers))
		at := -1
		if x > 0 {
			at = (x - 1) % (n + 1)
		}
		w.b.WriteByte('{')
		w.gap()
		first := true
		for i := 0; i <= n; i++ {
			if i == at {
				if !first {
					w.b.WriteByte(',')
				}
				first = false
				w.b.WriteString(extraMembers[(x-1)/(n+1)])
			}
			if i == n {
				break
			}
			if !first {
				w.b.WriteByte(',')
				w.gap()
			}
			first = false
			m := v.Obj[order[i]]
			w.str(m.Key)
			w.gap()
			w.b.WriteByte(':')
			w.gap()
			w.value(m.Val)
			w.gap()
		}
		w.b.WriteByte('}')
	default:
		w.b.WriteString(v.String())
	}
}

func write(v *Val, choose pointFn) string {
	w := &writer{choose: choose}
	w.gap()
	w.value(v)
	w.gap()
	return w.b.String()
}

// rewritings calls f with every way of writing v that deviates from the plain one in at most
// `depth` (1 or 2) places, and with the uniform ones (same whitespace everywhere, same spelling
// everywhere).
func rewritings(v *Val, depth int, f func(desc, text string)) {
	var sizes []int
	var kinds []string
	plain := write(v, func(k string, n int) int { sizes = append(sizes, n); kinds = append(kinds, k); return 0 })
	f("plain", plain)
	at := func(ch map[int]int) string {
		i := -1
		return write(v, func(k string, n int) int {
			i++
			if x := ch[i]; x < n {
				return x
			}
			return 0
		})
	}
	for p, n := range sizes {
		for o := 1; o < n; o++ {
			f(fmt.Sprintf("%s %d way %d", kinds[p], p, o), at(map[int]int{p: o}))
			if depth < 2 {
				continue
			}
			for q := p + 1; q < len(sizes); q++ {
				step := 1
				if kinds[q] == "extra" || kinds[p] == "extra" {
					step = 7
				}
				for r := 1 + o%step; r < sizes[q]; r += step {
					f("two", at(map[int]int{p: o, q: r}))
				}
			}
		}
	}
	for g := range gaps {
		for s := 0; s < 4; s++ {
			for e := 0; e < 2; e++ {
				for ord := 0; ord < 2; ord++ {
					f("uniform", write(v, func(k string, n int) int {
						switch k {
						case "gap":
							return g
						case "str":
							return s
						case "order":
							return ord * (n - 1)
						case "extra":
							if e == 1 {
								return (g*7 + s*3 + 1) % n
							}
						}
						return 0
					}))
				}
			}
		}
	}
}
