package main

import "strings"

// Texts in which every kind of line may follow every other one, with options
// to match: what the other generators hold apart meets here.

// anyChar is a printable character, most of them without a meaning.
func (g *gen) anyChar() string {
	if g.oneIn(12) {
		return g.pick("é", "世", "ß", "Ü", "\u00a0", "\t", "，")
	}
	return string(rune(' ' + g.r.Intn(95)))
}

func (g *gen) chars(lo, hi int) string {
	var b strings.Builder
	for i, n := 0, g.n(lo, hi); i < n; i++ {
		b.WriteString(g.anyChar())
	}
	return b.String()
}

var soupBits = []string{"a", "b c", " ", "\"", "'", "#", " # c", ";", " ; d", "\\#", "\\;", "\\\"", "\\", "`", "\"\"\"", "=", ":", "é", "%(a)s", "[x]", "-", ",", "\t"}

func (g *gen) soupValue() string {
	switch g.r.Intn(12) {
	case 0:
		return ""
	case 1, 2:
		return g.pick("v", "two words", "1", "true", "x=y", "http://h/p?q=1#f")
	case 3:
		return g.word(soupBits, 1, 6)
	case 4, 5:
		q := g.pick("\"", "'", "`", "\"\"\"")
		return q + g.word(soupBits, 0, 5) + q + g.pick("", "", " ", " # c", "; d", " tail")
	case 6:
		q := g.pick("`", "\"\"\"", "\"")
		return q + g.word(soupBits, 0, 4) // may stay open
	case 7:
		return g.word(soupBits, 0, 3) + g.pick("\\", " \\", "\\ ")
	case 8:
		return g.chars(1, 12)
	case 9:
		// the same escape several times
		e := g.pick("\\#", "\\;", "\\\"", "#", "; ", "\"", "`", "'", "\\")
		q := g.pick("", "", "\"", "`")
		var b strings.Builder
		for i, n := 0, g.n(2, 5); i < n; i++ {
			b.WriteString(g.pick("x", "y z", "") + e)
		}
		return q + b.String() + g.pick("end", "") + q
	case 10:
		if g.oneIn(4) {
			return g.pick("", "`", "\"") + strings.Repeat(g.pick("x", "word ", "é"), g.n(20, 90)) + g.pick("", "`", "\"", "\\")
		}
		return "w"
	}
	return g.from(plainValues)
}

func (g *gen) soupName() string {
	switch g.r.Intn(8) {
	case 0:
		q := g.pick("\"", "`", "\"\"\"")
		return q + g.pick("a", "k=x", "c:d", "x y", "`", "\"") + g.pick("", " ", "=") + q
	case 1:
		return g.pick("-", "-", "#1", "- x", "[k", "\\")
	case 2:
		return g.chars(1, 4)
	}
	return g.pick("a", "b", "k", "Key", "long name", "é", "A")
}

func (g *gen) soupLine(secs []string) string {
	in := g.pick("", "", "", " ", "\t", "  ", "\f")
	switch g.r.Intn(16) {
	case 0, 1, 2:
		return g.pick("", "", " ") + "[" + g.from(secs) + "]" + g.pick("", "", "", " # note", ";n", " tail", " # a ; b", " ; a # b", "]")
	case 3:
		return in + g.pick("#", ";", "# ", "; ") + g.pick("note", "a = 1", "see #12", "x ; y", "", "[s]")
	case 4:
		return in
	case 5:
		return in + g.pick("flag", "other flag", "flag # c", "\"q\"", "`b`", "x \\")
	case 6:
		return g.pick("  ", "\t", " ") + g.pick("more", "n = x", "[n]", "# part", "z:y")
	case 7:
		return in + g.pick("`", "\"\"\"", "\"", "end`", "end\"\"\" # c", "text` ; c", "\\", "more \\")
	case 8:
		return g.pick("-", " -") + g.pick("=", " = ", ":") + g.soupValue()
	case 9:
		return g.chars(1, 10)
	}
	return in + g.soupName() + g.pick("=", " = ", " = ", ":", " : ", "\t=", "= ") + g.soupValue()
}

// soup returns options and a text.
func (g *gen) soup(max int) (M, string) {
	o := M{}
	if !g.oneIn(4) {
		o = g.readOpts(g.n(2, 6))
	}
	if !g.oneIn(8) {
		delete(o, "delims")
	}
	secs := []string{"s", "t", "raw", "S", "s.a", "a]b", "Notes"}
	if g.oneIn(3) {
		o["unparse"] = []any{"raw", "notes"}
	}
	if g.oneIn(3) {
		o["skip"] = true
	}
	if g.coin() {
		o["bool"] = true
	}
	end := g.pick("\n", "\n", "\n", "\r\n")
	var b strings.Builder
	for i, n := 0, g.n(1, max); i < n; i++ {
		b.WriteString(g.soupLine(secs) + end)
	}
	s := b.String()
	if g.oneIn(4) {
		s = strings.TrimRight(s, "\r\n")
	}
	return o, s
}

// soups adds histories that load such texts; in some of them the document is
// also written.
func (g *gen) soups(n, max int, write bool) {
	for i := 0; i < g.count(n); i++ {
		o, s := g.soup(max)
		steps := []Step{load(o, s), obs()}
		if write {
			steps = append(steps, op("write", "g", g.format(), "indent", g.pick("", "", "", "  ")), obs())
		}
		g.add("soup", steps...)
	}
}
