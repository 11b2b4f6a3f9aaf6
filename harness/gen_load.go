package main

import "strings"

func init() {
	generators["C01"] = genC01
}

var plainNames = []string{"a", "b", "c", "k1", "Key", "x.y", "x.y.z", "long name", "é", "世界", "a-b", "_", "0"}
var plainValues = []string{"", "1", "v", "two words", "a=b", "x:y", "é世", "%(a)s", "[x]", "C:\\dir\\f", "-", "http://h/p?q=1", "a,b , c"}
var secNames = []string{"s", "t", "s.a", "s.a.b", "DEFAULT", "default", "S", "long name", "é", "a]b"}

func genC01(g *gen) {
	lines := []string{"[s]", "[t]", "[DEFAULT]", "a=1", "b = 2", "a:3", "a==4:", "\"a\"=5", "`k=x` : 6", "\"\"\"k:y\"\"\"=7",
		"", "\ta =\t8 ", "b="}
	sequences(lines, 1, 2, "\n", func(s string) { g.add("lines", load(M{}, s), obs()) })
	k := 3
	if g.scale > 1 {
		k = 1
	}
	sequences(lines, 3, 3, "\n", g.some(k, func(s string) { g.add("lines3", load(M{}, s), obs()) }))
	delims := []string{"", "", "=", ":", "->", "=:,", "、=", "/"}
	for i := 0; i < g.count(3000); i++ {
		o := M{}
		d := g.from(delims)
		if d != "" {
			o["delims"] = d
		}
		if d == "" {
			d = "=:"
		}
		sep := func() string { r := []rune(d); return string(r[g.r.Intn(len(r))]) }
		sp := func() string { return g.pick("", "", " ", "\t", "  ", " \t", "\u00a0") }
		var b strings.Builder
		for j, n := 0, g.n(1, 14); j < n; j++ {
			switch g.r.Intn(10) {
			case 0, 1:
				in := ""
				if g.oneIn(5) {
					in = g.pick(" ", "\t", "  ")
				}
				b.WriteString(sp() + "[" + g.pick("", in) + g.from(secNames) + in + "]" + sp())
			case 2:
				b.WriteString(sp())
			case 3:
				b.WriteString(g.pick("# note", "; x=y", "#[s]"))
			case 4:
				q := g.pick("\"", "`", "\"\"\"")
				b.WriteString(sp() + q + g.from(plainNames) + g.pick("", " ", "=", ":", "=x:") + q + sp() + sep() + sp() + g.from(plainValues))
			default:
				b.WriteString(sp() + g.from(plainNames) + sp() + sep() + sp() + g.from(plainValues) + sp())
			}
			b.WriteString(g.pick("\n", "\n", "\n", "\r\n"))
		}
		s := b.String()
		if g.oneIn(4) {
			s = strings.TrimSuffix(s, "\n")
		}
		g.add("random", load(o, s), obs())
	}
	g.soups(1000, 12, false)
}
