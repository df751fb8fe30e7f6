package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	g "github.com/couchbaselabs/gojsonsm"
)

// rawNode is a JSON value with the texts it was written with.
type rawNode struct {
	raw  string // token, of scalars
	obj  []rawMember
	arr  []*rawNode
	kind byte   // 'o', 'a', 0 for scalars
	text string // everything from its first to its last byte
}

type rawMember struct {
	rawKey, key string
	val         *rawNode
}

type rawParser struct {
	s []byte
	p int
}

func (r *rawParser) next() (lexTok, bool) {
	t, ok := lexNext(r.s, r.p)
	if ok {
		r.p = t.end
	}
	return t, ok
}

func (r *rawParser) value() *rawNode {
	t, ok := r.next()
	if !ok {
		return nil
	}
	n := &rawNode{}
	switch t.kind {
	case '{':
		n.kind = 'o'
		for {
			k, ok := r.next()
			if !ok {
				return nil
			}
			if k.kind == '}' && len(n.obj) == 0 {
				break
			}
			if k.kind != 's' && k.kind != 'e' {
				return nil
			}
			var key string
			rk := string(r.s[k.start:k.end])
			if json.Unmarshal([]byte(rk), &key) != nil {
				return nil
			}
			if c, ok := r.next(); !ok || c.kind != ':' {
				return nil
			}
			v := r.value()
			if v == nil {
				return nil
			}
			n.obj = append(n.obj, rawMember{rk, key, v})
			d, ok := r.next()
			if !ok {
				return nil
			}
			if d.kind == '}' {
				break
			}
			if d.kind != ',' {
				return nil
			}
		}
	case '[':
		n.kind = 'a'
		save := r.p
		if d, ok := r.next(); ok && d.kind == ']' {
			break
		}
		r.p = save
		for {
			v := r.value()
			if v == nil {
				return nil
			}
			n.arr = append(n.arr, v)
			d, ok := r.next()
			if !ok {
				return nil
			}
			if d.kind == ']' {
				break
			}
			if d.kind != ',' {
				return nil
			}
		}
	case '}', ']', ',', ':', '$':
		return nil
	default:
		n.raw = string(r.s[t.start:t.end])
	}
	n.text = string(r.s[t.start:r.p])
	return n
}

// rawParse reads a whole text; nil if it is not JSON.
func rawParse(s []byte) *rawNode {
	r := &rawParser{s: s}
	n := r.value()
	if n == nil {
		return nil
	}
	if t, ok := r.next(); !ok || t.kind != '$' {
		return nil
	}
	return n
}

// without writes the value without the items whose keys are listed.
func (n *rawNode) without(keys []string, gone *[]rawMember) string {
	switch n.kind {
	case 'o':
		var parts []string
		for _, m := range n.obj {
			hit := false
			for _, k := range keys {
				hit = hit || k == m.key
			}
			if hit {
				*gone = append(*gone, m)
				continue
			}
			parts = append(parts, m.rawKey+":"+m.val.without(keys, gone))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case 'a':
		var parts []string
		for _, e := range n.arr {
			parts = append(parts, e.without(keys, gone))
		}
		return "[" + strings.Join(parts, ",") + "]"
	}
	return n.raw
}

// respace writes the value again with white space between all tokens.
func (n *rawNode) respace(b *strings.Builder, ws []string, i *int) {
	gap := func() {
		b.WriteString(ws[*i%len(ws)])
		*i++
	}
	switch n.kind {
	case 'o':
		b.WriteString("{")
		gap()
		for j, m := range n.obj {
			if j > 0 {
				b.WriteString(",")
				gap()
			}
			b.WriteString(m.rawKey)
			gap()
			b.WriteString(":")
			gap()
			m.val.respace(b, ws, i)
			gap()
		}
		b.WriteString("}")
	case 'a':
		b.WriteString("[")
		gap()
		for j, e := range n.arr {
			if j > 0 {
				b.WriteString(",")
				gap()
			}
			e.respace(b, ws, i)
			gap()
		}
		b.WriteString("]")
	default:
		b.WriteString(n.raw)
	}
}

// removal is one call; size < 0: no destination given, mapMode: 0 no map given, 1 an empty one, 2 one with an old entry.
func removal(src string, keys []string, size, mapMode int) (out string, rest string, removed map[string][]byte, n, count int, left bool, err error, msg string) {
	srcB := []byte(src + "#tail#")
	s := srcB[:len(src)]
	keysWas := append([]string{}, keys...)
	var dst, whole []byte
	if size >= 0 {
		whole = bytes.Repeat([]byte{0xAA}, size+8)
		dst = whole[:size]
		if size == 0 {
			dst = whole[:0]
		}
	}
	if mapMode > 0 {
		removed = map[string][]byte{}
		if mapMode == 2 {
			for _, k := range keys {
				removed[k] = []byte("old")
			}
		}
	}
	n, count, left, err = g.MatchAndRemoveItemsFromJsonObject(s, keys, dst, removed)
	if string(srcB) != src+"#tail#" {
		return "", "", nil, 0, 0, false, nil, fmt.Sprintf("%q without %q: the source is now %q", src, keys, srcB)
	}
	for i := range keys {
		if keys[i] != keysWas[i] {
			return "", "", nil, 0, 0, false, nil, fmt.Sprintf("%q without %q: the key list is now %q", src, keysWas, keys)
		}
	}
	if size >= 0 {
		if !bytes.Equal(whole[size:], bytes.Repeat([]byte{0xAA}, 8)) {
			return "", "", nil, 0, 0, false, nil, fmt.Sprintf("%q without %q into %d bytes: wrote behind the destination", src, keys, size)
		}
		if err == nil {
			if n < 0 || n > size {
				return "", "", nil, 0, 0, false, nil, fmt.Sprintf("%q without %q into %d bytes: length %d returned", src, keys, size, n)
			}
			out = string(dst[:n])
		}
	}
	if err != nil && (n != 0 || count != 0 || left) {
		return "", "", nil, 0, 0, false, nil, fmt.Sprintf("%q without %q into %d bytes: error %v together with %d %d %v", src, keys, size, err, n, count, left)
	}
	return
}

type removalWant struct {
	out  string
	gone []rawMember
	left bool
}

func wantRemoval(n *rawNode, keys []string) removalWant {
	var w removalWant
	w.out = n.without(keys, &w.gone)
	w.left = w.out != "{}"
	return w
}

// checkRemoval compares one call with what it has to do.
func checkRemoval(c *Ctx, src string, keys []string, w removalWant, size, mapMode int) string {
	c.Trans(1)
	out, _, removed, n, count, left, err, msg := removal(src, keys, size, mapMode)
	if msg != "" {
		return msg
	}
	at := fmt.Sprintf("%q without %q into %d bytes", src, keys, size)
	if size >= 0 && size < len(w.out) {
		if err == nil {
			return fmt.Sprintf("%s: no error although %d bytes are needed", at, len(w.out))
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("%s: error %v", at, err)
	}
	if size >= 0 && out != w.out {
		return fmt.Sprintf("%s: result %q, should be %q", at, out, w.out)
	}
	if n != len(w.out) || count != len(w.gone) || left != w.left {
		return fmt.Sprintf("%s: length %d, %d removed, items left %v; should be %d, %d, %v", at, n, count, left, len(w.out), len(w.gone), w.left)
	}
	if mapMode > 0 {
		seen := map[string]bool{}
		for _, m := range w.gone {
			if seen[m.key] {
				continue
			}
			seen[m.key] = true
			ok := false
			for _, o := range w.gone {
				if o.key == m.key && string(removed[m.key]) == o.val.text {
					ok = true
				}
			}
			if !ok {
				return fmt.Sprintf("%s: removed item %q is %q, should be %q", at, m.key, removed[m.key], m.val.text)
			}
		}
		for k, v := range removed {
			if !seen[k] && !(mapMode == 2 && string(v) == "old") {
				return fmt.Sprintf("%s: reports %q=%q as removed", at, k, v)
			}
		}
	}
	return ""
}

var c19Values = []string{`1`, `"x"`, `"a"`, `{}`, `[]`, `[1,"b"]`, `{"a":1}`, `{"c":{"a":[1],"d":"b"},"b":2}`, `[{"a":1},{"b":"a"},["a"]]`, `{"e":"a","f":[],"a":{"b":1}}`, `"a\":1,\"b"`, `null`, `-0.5E+2`, `"\u0061"`, `true`, `[[{}],{"d":[null,false]}]`}

var c19Layouts = [][]string{{""}, {" "}, {"\n\t", "", " \r"}, {"", "  "}}

// key lists over the keys that occur (and others), in several orders, with repetitions
func keyLists(all bool) [][]string {
	ks := []string{"a", "b", "c", "d", "", "zz"}
	out := [][]string{nil, {}}
	for i := range ks {
		out = append(out, []string{ks[i]})
		for j := range ks {
			if all || i < 4 && j < 4 {
				out = append(out, []string{ks[i], ks[j]})
			}
		}
	}
	out = append(out, []string{"a", "b", "c"}, []string{"c", "b", "a"}, []string{"b", "zz", "a"}, []string{"a", "a", "b"}, []string{"zz", "d", "c", "b", "a", ""}, []string{"e", "f"}, []string{"A", "ab", "\"a\"", "a "}, []string{"x", "1", "a\":1,\"b"})
	return out
}

func init() {
	register(&Check{
		ID:    "C19",
		Rule:  "case = one JSON object; for every key list (all single keys, all ordered pairs, longer lists, repeated and absent keys), layout of white space, destination size and with or without a map for the removed items the real function is called and its output bytes, length, count, flag and removed texts are compared with those of a reference that removes members from the parsed text; non-trivial: at least one item is removed and one is left for some list; states = distinct (object text, key list)",
		Assum: []string{"the object starts at the first byte and ends at the last one", "a listed key is removed wherever it occurs, items inside of a removed item are not removed again; of several removed items with one key any may be the one that is returned"},
		Bound: func(t string) string {
			if t == "thorough" {
				return "all objects of up to 3 members with 16 kinds of values and 6 key patterns, of 4 members with 9 kinds of values, of 1 member nested to depth 4; 4 layouts; 47 key lists; all destination sizes for small objects; all pairs of 53 keys that look alike; keys of 68 lengths up to 65537 that differ in one byte (all places up to 1025)" + seriesBound(t == "thorough")
			}
			return "all objects of up to 3 members with 16 kinds of values (3 key patterns), nested single members to depth 3; 4 layouts; 31 key lists; 4 destination sizes (all for one-member objects); all pairs of 53 keys that look alike; keys of 68 lengths up to 65537 that differ in one byte (all places up to 257)" + seriesBound(t == "thorough")
		},
		Run: func(c *Ctx) {
			c19Series(c)
			c19Keys(c)
			lists := keyLists(c.Thorough)
			one := func(src string, allSizes bool) {
				c.Do(func() string { return src }, func() string {
					some := false
					for li, ws := range c19Layouts {
						n := rawParse([]byte(src))
						if n == nil {
							return "the harness made a bad object"
						}
						var b strings.Builder
						i := 0
						n.respace(&b, ws, &i)
						text := b.String()
						n = rawParse([]byte(text))
						for ki, keys := range lists {
							w := wantRemoval(n, keys)
							c.State(text, strings.Join(keys, "\x00"))
							some = some || len(w.gone) > 0 && w.left
							sizes := []int{len(w.out), len(w.out) - 1, len(text), -1}
							if allSizes {
								for s := 0; s < len(w.out); s++ {
									sizes = append(sizes, s)
								}
							}
							for si, s := range sizes {
								if s < -1 {
									continue
								}
								if m := checkRemoval(c, text, keys, w, s, (li+ki+si)%3); m != "" {
									return m
								}
							}
						}
					}
					c.Trace()
					if some {
						c.NonTrivial()
						c.Outcome("partly removed")
					} else {
						c.Outcome("all or nothing removed")
					}
					return ""
				})
			}
			one("{}", true)
			pats := [][]string{{"a", "b", "c"}, {`\u0061`, "zzz", "a\\u0062"}, {"c", "a", "c"}}
			if c.Thorough {
				pats = append(pats, []string{"", "b", `\"a\"`}, []string{"b", "a", "d"}, []string{"é", "B", "\\u0062"})
			}
			for _, p := range pats {
				for _, v1 := range c19Values {
					one(`{"`+p[0]+`":`+v1+`}`, true)
					for _, v2 := range c19Values {
						one(`{"`+p[0]+`":`+v1+`,"`+p[1]+`":`+v2+`}`, c.Thorough)
						for _, v3 := range c19Values {
							one(`{"`+p[0]+`":`+v1+`,"`+p[1]+`":`+v2+`,"`+p[2]+`":`+v3+`}`, false)
							if c.Thorough && p[0] == "a" {
								for _, v4 := range c19Values[2:9] {
									one(`{"`+p[0]+`":`+v1+`,"`+p[1]+`":`+v2+`,"`+p[2]+`":`+v3+`,"d":`+v4+`}`, false)
								}
							}
						}
					}
				}
			}
			// nesting: one member (or element) around another, with a neighbour before or behind
			wraps := []string{`{"a":%}`, `{"b":1,"q":%}`, `{"q":%,"a":2}`, `[%]`, `["a",%]`, `[%,{"b":3}]`, `{"c":[%],"d":%}`}
			var rec func(v string, d int)
			rec = func(v string, d int) {
				if v[0] == '{' {
					one(v, false)
				}
				if d == 0 {
					return
				}
				for _, w := range wraps {
					rec(strings.Replace(w, "%", v, -1), d-1)
				}
			}
			depth := 3
			if c.Thorough {
				depth = 4
			}
			for _, v := range []string{`1`, `"b"`, `{}`, `[]`, `{"a":1}`} {
				rec(v, depth)
			}
		},
	})
}
