package main

import (
	"unicode/utf8"
)

// Strings of the code under test are byte strings; the specification sees
// characters. Bytes that are not part of well-formed UTF-8 are shown as the
// private-use code point U+E000+b (see spec/Chars.tla).

func enc(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	out := make([]rune, 0, len(s))
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n <= 1 {
			out = append(out, 0xE000+rune(s[i]))
			i++
			continue
		}
		out = append(out, r)
		i += n
	}
	return string(out)
}

func dec(s string) string {
	out := make([]byte, 0, len(s))
	for _, r := range s {
		if r >= 0xE000 && r <= 0xE0FF {
			out = append(out, byte(r-0xE000))
			continue
		}
		out = utf8.AppendRune(out, r)
	}
	return string(out)
}

// argument decoding: a text is a JSON string, or an array of characters when
// the step was printed by TLC.
func txt(v any) string {
	switch x := v.(type) {
	case nil:
		return ""
	case string:
		return dec(x)
	case []any:
		s := ""
		for _, c := range x {
			s += c.(string)
		}
		return dec(s)
	}
	panic("driver: bad text argument")
}

func txts(v any) []string {
	var out []string
	switch x := v.(type) {
	case nil:
	case []string:
		for _, s := range x {
			out = append(out, dec(s))
		}
	case []any:
		for _, s := range x {
			out = append(out, txt(s))
		}
	}
	return out
}

func num(v any) int {
	switch x := v.(type) {
	case nil:
		return 0
	case int:
		return x
	case float64:
		return int(x)
	}
	panic("driver: bad number argument")
}

func boolean(v any) bool {
	b, _ := v.(bool)
	return b
}
