package main

import "bytes"

type lexTok struct {
	kind       byte
	start, end int
}

func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

// lexNext is the lexical grammar of RFC 8259, written down directly.
func lexNext(s []byte, p int) (lexTok, bool) {
	for p < len(s) && (s[p] == ' ' || s[p] == '\t' || s[p] == '\r' || s[p] == '\n') {
		p++
	}
	if p == len(s) {
		return lexTok{'$', p, p}, true
	}
	at := func(i int) byte {
		if i < len(s) {
			return s[i]
		}
		return 0
	}
	digits := func(i int) int {
		for at(i) >= '0' && at(i) <= '9' {
			i++
		}
		return i
	}
	switch c := s[p]; {
	case bytes.IndexByte([]byte("{}[]:,"), c) >= 0:
		return lexTok{c, p, p + 1}, true
	case c == 't' || c == 'f' || c == 'n':
		w := map[byte]string{'t': "true", 'f': "false", 'n': "null"}[c]
		if bytes.HasPrefix(s[p:], []byte(w)) {
			return lexTok{c, p, p + len(w)}, true
		}
	case c == '"':
		kind := byte('s')
		for i := p + 1; i < len(s); i++ {
			switch {
			case s[i] == '"':
				return lexTok{kind, p, i + 1}, true
			case s[i] == '\\':
				kind = 'e'
				i++
				if at(i) == 'u' {
					if !(isHex(at(i+1)) && isHex(at(i+2)) && isHex(at(i+3)) && isHex(at(i+4))) {
						return lexTok{}, false
					}
					i += 4
				} else if at(i) == 0 || bytes.IndexByte([]byte(`"\/bfnrt`), at(i)) < 0 {
					return lexTok{}, false
				}
			case s[i] < 0x20:
				return lexTok{}, false
			}
		}
	case c == '-' || c >= '0' && c <= '9':
		i := p
		if c == '-' {
			i++
		}
		if at(i) == '0' {
			i++
		} else if at(i) >= '1' && at(i) <= '9' {
			i = digits(i)
		} else {
			return lexTok{}, false
		}
		kind := byte('i')
		if at(i) == '.' {
			kind = 'd'
			j := digits(i + 1)
			if j == i+1 {
				return lexTok{}, false
			}
			i = j
		}
		if at(i) == 'e' || at(i) == 'E' {
			kind = 'd'
			i++
			if at(i) == '+' || at(i) == '-' {
				i++
			}
			j := digits(i)
			if j == i {
				return lexTok{}, false
			}
			i = j
		}
		return lexTok{kind, p, i}, true
	}
	return lexTok{}, false
}
