package main

import (
	"fmt"
	"strings"
)

// Documents and histories larger in one respect than those of the other
// generators: long lines and names, many keys, sections, values or sources,
// deep names. bigs[p] is added to the histories of property p.
var bigs = map[string]func(g *gen){}

func (g *gen) filler(n int) string {
	var b strings.Builder
	for b.Len() < n {
		b.WriteString(g.pick("abcdefgh ", "0123456789", "x", "the quick brown fox ", "é", "y-z_", "word, "))
	}
	return strings.TrimSpace(strings.ToValidUTF8(b.String()[:n], "")) + "."
}

func (g *gen) size() int {
	switch g.r.Intn(8) {
	case 0:
		return g.n(4080, 4110)
	case 1:
		return g.n(8180, 8210)
	case 2:
		return g.n(9000, 17000)
	case 3:
		return g.n(1000, 4000)
	}
	return g.n(60, 1000)
}

// bigText returns options and a text that is large in one or two respects.
func (g *gen) bigText() (M, string) {
	o := g.subset(M{}, 6, "ignCont", "ignInline", "spaceInline", "unescDQ", "unescCS", "keepQ", "py", "ins", "shadow", "skip", "nonuniq")
	var b strings.Builder
	line := func(f string, v ...any) { fmt.Fprintf(&b, f+"\n", v...) }
	if g.coin() {
		line("first = 1")
	}
	for j, n := 0, g.n(1, 2); j < n; j++ {
		switch g.r.Intn(9) {
		case 0: // long value
			v := g.filler(g.size())
			q := g.pick("", "", "`", "\"", "'", "\"\"\"")
			line("long%d = %s%s%s%s", j, q, v, q, g.pick("", "", " # c", " \\\n  more"))
		case 1: // long name
			k := g.filler(g.n(60, 900))
			q := g.pick("", "", "`", "\"")
			line("%s%s%s %s v%d", q, strings.ReplaceAll(k, "-", "_"), q, g.pick("=", ":"), j)
		case 2: // many keys
			m := g.n(16, 70)
			for x := 0; x < m; x++ {
				line("k%d_%d%s= %s", j, (x*37)%101, g.pick(" ", ""), g.pick("v", "x", fmt.Sprint(x)))
			}
		case 3: // many sections
			m := g.n(12, 45)
			for x := 0; x < m; x++ {
				line("[sec%d]", (x*29+j)%53)
				if g.coin() {
					line("a = %d", x)
				}
			}
		case 4: // long comment
			m := g.n(4, 14)
			for x := 0; x < m; x++ {
				line("%s %s", g.pick("#", ";"), g.filler(g.n(1, 60)))
			}
			line("%s", g.pick("c = 1", "[c]", "c = 1 # in", "[c] ; in"))
		case 5: // many continuations
			s := fmt.Sprintf("cont%d = start", j)
			for x, m := 0, g.n(6, 30); x < m; x++ {
				s += g.pick(" \\", "\\") + "\n" + g.pick("", "  ") + g.pick("more", "and more", "x", "w w")
			}
			line("%s", s)
		case 6: // many lines in a quoted value
			s := ""
			for x, m := 0, g.n(6, 30); x < m; x++ {
				s += g.pick("l", "two words", "", "x = y", "  in") + "\n"
			}
			q := g.pick("`", "\"\"\"")
			line("ml%d = %s%s%s", j, q, s, q)
		case 7: // many indented lines
			if o["py"] == nil {
				o["nested"], o["ignCont"] = true, true
			}
			s := fmt.Sprintf("ind%d =", j)
			for x, m := 0, g.n(6, 24); x < m; x++ {
				s += "\n" + g.pick("  ", "\t", "    ") + g.pick("one", "two words", "x")
			}
			line("%s", s)
		case 8: // deep and long section names
			nm := g.filler(g.n(1, 120))
			for x, m := 0, g.n(3, 9); x < m; x++ {
				nm += g.pick(".", ".", "/") + g.pick("a", "bc", "é")
			}
			line("[%s]%s", nm, g.pick("", " # "+g.filler(g.n(1, 200))))
			line("d = 1")
		}
	}
	line("last = z")
	return o, b.String()
}

func (g *gen) bigTexts(n int, then func(o M) []Step) {
	for i := 0; i < g.count(n); i++ {
		o, s := g.bigText()
		steps := []Step{load(o, s), obs()}
		if then != nil {
			steps = append(steps, then(o)...)
		}
		g.add("big", steps...)
	}
}

func init() {
	bigs["C01"] = func(g *gen) {
		g.bigTexts(120, nil)
	}
	bigs["C02"] = func(g *gen) {
		for i := 0; i < g.count(90); i++ {
			o, s := g.bigText()
			if g.coin() { // a line that does not parse, at the end of much
				s += g.pick("nothing here", "[open", "= v", g.filler(300), "k = `"+g.filler(200), "k = \"\"\"a\nb\nc\nd\ne\nf\ng\n")
			}
			if g.coin() {
				o["skip"] = true
			}
			g.add("big", load(o, s), obs())
		}
	}
	bigs["C03"] = func(g *gen) {
		for i := 0; i < g.count(60); i++ {
			steps := []Step{load(g.subset(M{}, 5, "ignCont", "ignInline", "keepQ", "unescDQ", "unescCS"), "")}
			si := 1
			for j, n := 0, g.n(2, 40); j < n; j++ {
				k, v := fmt.Sprint("k", j), fmt.Sprint(j)
				switch g.r.Intn(12) {
				case 0:
					v = g.filler(g.n(60, 700)) + g.pick("", "`", "\"", "\\", "\n"+g.filler(50), "#")
				case 1:
					v = strings.Repeat(g.pick("l\n", "two words\n", "a`b\n"), g.n(4, 14)) + "end"
				case 2:
					k += g.filler(g.n(30, 300))
				case 3:
					steps = append(steps, op("newsec", "n", fmt.Sprint("s", j)))
					si++
					continue
				case 4:
					steps = append(steps, op("newkey", "s", si, "n", k, "v", v),
						op("keycom", "s", si, "key", k, "v", strings.Repeat(g.pick("note\n", "; x\n", "# a = b\n"), g.n(1, 9))+g.filler(g.n(1, 150))))
					continue
				}
				steps = append(steps, op("newkey", "s", si, "n", k, "v", v))
			}
			g.add("big", append(steps, op("rt", "g", g.format(), "cmp", "plain"))...)
		}
	}
	bigs["C04"] = func(g *gen) {
		g.bigTexts(60, func(o M) []Step {
			f := g.format()
			return []Step{op("write", "g", f, "indent", g.pick("", "  ")), obs()}
		})
		for i := 0; i < g.count(30); i++ {
			com := strings.Repeat(g.pick("note\n", "; x\n", "# a = b\n", "\n"), g.n(2, 9)) + g.filler(g.n(1, 150))
			steps := []Step{load(M{}, "a = 1\n[s]\n"), op("newkey", "s", g.n(1, 2), "n", "b"+g.filler(g.n(1, 200)), "v", g.filler(g.n(1, 300))),
				op("seccom", "s", 2, "v", com), op("newkey", "s", 2, "n", "c", "v", "2"), op("keycom", "s", 2, "key", "c", "v", com)}
			for j, n := 0, g.n(0, 30); j < n; j++ {
				steps = append(steps, op("newkey", "s", 2, "n", fmt.Sprint("k", (j*37)%101), "v", fmt.Sprint(j)))
			}
			g.add("big", append(steps, op("write", "g", M{"prettyFormat": true, "prettySection": g.coin()}), op("write", "g", g.format(), "indent", g.pick("", "\t")))...)
		}
	}
	bigs["C05"] = func(g *gen) {
		for i := 0; i < g.count(60); i++ {
			var b strings.Builder
			for j, n := 0, g.n(1, 4); j < n; j++ {
				for x, m := 0, g.n(0, 12); x < m; x++ {
					b.WriteString(g.pick("#", ";", "# ", "; ") + g.pick("", "note", g.filler(g.n(1, 150))) + "\n")
				}
				fmt.Fprintf(&b, g.pick("k%d = v\n", "[s%d]\n", "k%d = v # in\n", "[s%d] ; "+g.filler(100)+"\n", "k%d = v ; "+g.filler(300)+"\n"), j)
			}
			g.add("big", load(M{}, b.String()), obs(), op("rt", "g", g.format(), "cmp", "com"))
		}
		g.bigTexts(40, nil)
	}
	bigs["C06"] = func(g *gen) {
		for i := 0; i < g.count(50); i++ {
			steps := []Step{load(g.subset(M{}, 4, "ins", "insKey"), "")}
			n := g.n(15, 45)
			secs := g.coin()
			name := func() string { return fmt.Sprint(g.pick("k", "k", "K"), g.n(0, n+5)) }
			for j := 0; j < n; j++ {
				if secs {
					steps = append(steps, op("newsec", "n", fmt.Sprint("s", (j*29)%53)))
				} else {
					steps = append(steps, op("newkey", "s", 1, "n", fmt.Sprint("k", (j*29)%53), "v", fmt.Sprint(j)))
				}
			}
			steps = append(steps, op("keylist", "s", 1), op("seclist"), op("hash", "s", 1))
			for j, m := 0, g.n(6, 30); j < m; j++ {
				if secs {
					steps = append(steps, g.pickStep(op("delsec", "n", fmt.Sprint("s", g.n(0, 52))), op("newsec", "n", fmt.Sprint("s", g.n(0, 60))),
						op("getsec", "n", fmt.Sprint("s", g.n(0, 52))), op("delsecidx", "n", fmt.Sprint("s", g.n(0, 52)), "k", 0)))
				} else {
					steps = append(steps, g.pickStep(op("delkey", "s", 1, "n", name()), op("newkey", "s", 1, "n", name(), "v", "n"),
						op("getkey", "s", 1, "n", name()), op("hasvalue", "s", 1, "v", fmt.Sprint(g.n(0, n)))))
				}
			}
			g.add("big", append(steps, op("keylist", "s", 1), op("seclist"), obs())...)
		}
	}
	bigs["C07"] = func(g *gen) {
		for i := 0; i < g.count(30); i++ {
			o := M{g.pick("ins", "insKey", "insSec"): true}
			up := func(s string) string {
				if g.coin() {
					return strings.ToUpper(s)
				}
				return s
			}
			l := g.filler(g.n(40, 300))
			steps := []Step{load(o, ""), op("newsec", "n", up(l)), op("newkey", "s", 2, "n", up(l), "v", "1"), op("getsec", "n", up(l)), op("haskey", "s", 2, "n", up(l))}
			for j, n := 0, g.n(10, 30); j < n; j++ {
				steps = append(steps, op("newkey", "s", 2, "n", up(fmt.Sprint("key", j/2)), "v", fmt.Sprint(j)))
			}
			g.add("big", append(steps, op("delkey", "s", 2, "n", up("key3")), op("keylist", "s", 2), op("hash", "s", 2), obs())...)
		}
	}
	bigs["C08"] = func(g *gen) {
		for i := 0; i < g.count(60); i++ {
			d := "."
			o := M{}
			if g.oneIn(4) {
				d = g.pick("::", "/", "--")
				o["child"] = d
			}
			// one long line of descent, with gaps, and many siblings
			parts := []string{}
			for j, n := 0, g.n(5, 12); j < n; j++ {
				parts = append(parts, g.pick("a", "b", "cc", "é")+fmt.Sprint(j))
			}
			var names []string
			var b strings.Builder
			for j := range parts {
				if j == 0 && g.coin() || g.oneIn(3) || j == len(parts)-1 {
					names = append(names, strings.Join(parts[:j+1], d))
				}
			}
			if g.coin() {
				for j, n := 0, g.n(3, 14); j < n; j++ {
					names = append(names, names[g.r.Intn(len(names))]+d+fmt.Sprint("x", j))
				}
			}
			g.r.Shuffle(len(names), func(x, y int) { names[x], names[y] = names[y], names[x] })
			for j, n := range names {
				fmt.Fprintf(&b, "[%s]\n", n)
				if j == 0 || g.oneIn(4) {
					fmt.Fprintf(&b, "k%d = %d\n", g.n(0, 3), j)
				}
				if j == 0 {
					for x, m := 0, g.r.Intn(2)*g.n(9, 15); x < m; x++ {
						fmt.Fprintf(&b, "many%d = %d\n", x, x)
					}
				}
			}
			steps := []Step{load(o, b.String())}
			for j := range names {
				steps = append(steps, op("children", "s", j+2), op("parentkeys", "s", j+2), op("getkey", "s", j+2, "n", g.pick("k0", "k1", "k2", "k3", "many1")))
				if g.oneIn(4) {
					steps = append(steps, op("haskey", "s", j+2, "n", "k0"), op("childsof", "n", names[j]), op("string", "s", j+2, "key", "k1"))
				}
			}
			g.add("big", append(steps, obs())...)
		}
	}
	bigs["C09"] = func(g *gen) {
		for i := 0; i < g.count(25); i++ {
			var b strings.Builder
			v := ""
			m := g.n(8, 30)
			for x := 0; x < m; x++ {
				v += g.pick("%(k0)s", "%(k1)s", "%(longname_of_a_key)s", "%(nope)s", "text ", "%", "%(")
			}
			fmt.Fprintf(&b, "longname_of_a_key = %s\nk0 = %s\nk1 = %%(k0)s\nbig = %s\n[s%s]\nother = %%(big)s\n", g.filler(g.n(1, 400)), g.pick("a", "bc", ""), v, strings.Repeat(".t", g.n(0, 6)))
			g.add("big", load(M{}, b.String()), op("string", "s", 1, "key", "big"), op("string", "s", 2, "key", "other"), op("value", "s", 1, "key", "big"))
		}
	}
	bigs["C10"] = func(g *gen) {
		for i := 0; i < g.count(50); i++ {
			o := M{"shadow": true}
			g.subset(o, 2, "dupShadow")
			var b strings.Builder
			for j, n := 0, g.n(5, 25); j < n; j++ {
				fmt.Fprintf(&b, "%s = %s\n", g.pick("k", "k", "k", "j"), g.pick("1", "2", "a,b", "", fmt.Sprint(j), fmt.Sprint(j), g.filler(g.n(1, 90))))
			}
			steps := []Step{load(o, b.String()), obs()}
			for j, n := 0, g.n(0, 12); j < n; j++ {
				steps = append(steps, op("addshadow", "s", 1, "key", "k", "v", g.pick("1", fmt.Sprint(j), fmt.Sprint(100+j))))
			}
			g.add("big", append(steps, op("shadows", "s", 1, "key", "k"), op("strsh", "s", 1, "key", "k", "delim", ","), op("write", "g", M{}),
				op("rt", "g", g.format(), "cmp", "shadows"))...)
		}
	}
	bigs["C11"] = func(g *gen) {
		for i := 0; i < g.count(60); i++ {
			n := g.n(4, 14)
			var srcs []any
			src := func(j int) M {
				return textVia(g.pick("", "", "file"), g.pick(fmt.Sprintf("a = %d\n", j), fmt.Sprintf("[s]\nb%d = %d\n", j%5, j), fmt.Sprintf("[t%d]\nc = %d\n", j, j), "", fmt.Sprintf("# c%d\n[s]\na = %d\n", j, j)))
			}
			for j := 0; j < n; j++ {
				srcs = append(srcs, src(j))
			}
			o := M{}
			if g.oneIn(4) {
				o["loose"] = true
				srcs[g.r.Intn(n)] = M{"k": "missing"}
			}
			steps := []Step{loads(o, srcs...), obs()}
			if g.coin() {
				cut := g.n(1, n-1)
				steps = []Step{loads(o, srcs[:cut]...), op("append", "srcs", srcs[cut:]), obs()}
			}
			for j, m := 0, g.n(0, 6); j < m; j++ {
				steps = append(steps, g.pickStep(op("append", "srcs", []any{src(50 + j)}), op("append", "srcs", []any{src(60 + j), src(70 + j), src(80 + j)}), op("reload"), op("again")))
			}
			g.add("big", append(steps, obs(), op("again"))...)
		}
	}
	bigs["C12"] = func(g *gen) {
		for i := 0; i < g.count(40); i++ {
			n := g.n(8, 30)
			var b strings.Builder
			for j := 0; j < n; j++ {
				fmt.Fprintf(&b, "[%s]\nid = %d\n", g.pick("s", "s", "t"), j)
			}
			steps := []Step{load(M{"nonuniq": true}, b.String()), op("seclist"), op("secsby", "n", "s")}
			for j, m := 0, g.n(3, 14); j < m; j++ {
				steps = append(steps, g.pickStep(op("delsecidx", "n", "s", "k", g.n(0, n/2)), op("delsecidx", "n", "t", "k", g.n(0, n/4)), op("newsec", "n", g.pick("s", "t", "u")),
					op("secidx", "n", "s", "k", g.n(0, n)), op("secsby", "n", "t")))
			}
			g.add("big", append(steps, op("seclist"), op("secsby", "n", "s"), obs(), op("write", "g", M{}))...)
		}
	}
	bigs["C14"] = func(g *gen) {
		for i := 0; i < g.count(40); i++ {
			d := g.pick(",", "|", "::", " ")
			var parts []string
			n := g.n(8, 60)
			if g.oneIn(10) {
				n = g.n(150, 550)
			}
			for j := 0; j < n; j++ {
				parts = append(parts, g.pick("", " ")+g.pick("x", "12", "é", g.filler(g.n(1, 40)), "a\\"+d+"b", "")+g.pick("", " "))
			}
			g.add("big", load(M{}, ""), op("newkey", "s", 1, "n", "k", "v", enc(strings.Join(parts, d))), op("strings", "s", 1, "key", "k", "delim", d),
				op("value", "s", 1, "key", "k"))
		}
	}
	bigs["C18"] = func(g *gen) {
		for i := 0; i < g.count(70); i++ {
			o := g.subset(M{}, 4, "ignInline", "keepQ", "spaceInline", "unescDQ")
			var b strings.Builder
			b.WriteString("a = 1\nk = ")
			lines := g.n(6, 40)
			w := func() string {
				return g.pick("one", "two words", "x = y", "é世", "12", "#", " in", g.filler(g.n(1, 60)))
			}
			switch g.r.Intn(4) {
			case 0:
				q := g.pick("`", "\"\"\"")
				b.WriteString(q)
				for x := 0; x < lines; x++ {
					b.WriteString(g.pick(w(), w(), "") + "\n")
				}
				b.WriteString(g.pick("", "end") + q + "\n")
			case 1:
				b.WriteString("start")
				for x := 0; x < lines; x++ {
					b.WriteString(g.pick(" \\", "\\") + "\n" + g.pick("", "  ", "\t") + g.pick("more", "w w", "12", g.filler(g.n(1, 60))))
				}
				b.WriteString("\n")
			default:
				o["py"] = true
				b.WriteString(g.pick("", "first"))
				for x := 0; x < lines; x++ {
					b.WriteString("\n" + g.pick("  ", "\t", "    ") + w())
				}
				b.WriteString("\n")
			}
			b.WriteString("b = 2\n")
			g.add("big", load(o, b.String()), obs())
		}
		g.bigTexts(30, nil)
	}
	bigs["C19"] = func(g *gen) {
		for i := 0; i < g.count(60); i++ {
			o := M{"bool": true, "nested": true}
			var b strings.Builder
			for j, n := 0, g.n(1, 4); j < n; j++ {
				switch g.r.Intn(3) {
				case 0:
					for x, m := 0, g.n(8, 30); x < m; x++ {
						fmt.Fprintf(&b, "- = v%d\n", x)
						if g.oneIn(12) {
							fmt.Fprintf(&b, "flag%d\n", x)
						}
					}
				case 1:
					for x, m := 0, g.n(8, 30); x < m; x++ {
						fmt.Fprintf(&b, "flag%d\n", (x*29)%31)
					}
				case 2:
					fmt.Fprintf(&b, "n%d =\n", j)
					for x, m := 0, g.n(4, 20); x < m; x++ {
						fmt.Fprintf(&b, "%s%s\n", g.pick("  ", "\t"), g.pick("x", "y = z", fmt.Sprint(x)))
					}
				}
				if g.coin() {
					fmt.Fprintf(&b, "[s%d]\n", j)
				}
			}
			f := g.format()
			g.add("big", load(o, b.String()), obs(), op("rt", "g", f, "cmp", "entries"), op("write", "g", f))
		}
	}
	bigs["C20"] = func(g *gen) {
		for i := 0; i < g.count(50); i++ {
			var b strings.Builder
			b.WriteString("[s]\na = 1\n[raw]\n")
			for x, m := 0, g.n(4, 30); x < m; x++ {
				b.WriteString(g.pick("free text", "a = 1", "= x", "  indented", "`tick", g.filler(g.n(1, 90)), g.filler(g.n(90, 500))) + "\n")
			}
			b.WriteString(g.pick("", "[t]\nb = 2\n", "# c\n[t]\n", "[COMMENTS]\nmore text\n"))
			g.add("big", load(M{"unparse": []any{"raw", "COMMENTS"}}, b.String()), obs(), op("rt", "g", g.format(), "cmp", "entries"), op("write", "g", g.format()))
		}
	}
	bigs["C21"] = func(g *gen) {
		vias := []string{"bytes", "file", "reader", "closer", "chunk", "dataerr", "onebyte"}
		for i := 0; i < g.count(70); i++ {
			o, s := g.bigText()
			if g.oneIn(4) {
				s = "\ufeff" + s
			}
			if g.oneIn(6) {
				s = strings.ReplaceAll(s, "\n", "\r\n")
			}
			src := textVia(g.from(vias), s)
			src["cut"] = []any{g.n(1, 4097)}
			if g.coin() {
				o["bufsz"] = []int{1, 16, 4096, 4097, 5000, 65536}[g.r.Intn(6)]
			}
			g.add("big", Step{"op": "load", "o": o, "srcs": []any{src}}, obs())
		}
	}
	bigs["C22"] = func(g *gen) {
		bits := []string{"word ", "#", " # ", ";", "\\#", "\\;", "\\\"", "\"", "'", "`", "x", "=", "\\", "long text, "}
		for i := 0; i < g.count(60); i++ {
			o := g.subset(M{}, 3, "keepQ", "ignInline", "spaceInline", "unescDQ", "unescCS", "ignCont")
			q := g.pick("", "\"", "'", "`", "\"\"\"")
			v := ""
			for x, m := 0, g.n(10, 60); x < m; x++ {
				v += g.pick(g.from(bits), g.pick("word ", "x", "long text, "), g.pick("word ", "x", "long text, "))
			}
			g.add("big", load(o, "k = "+q+v+q+g.pick("", " # c", "; "+g.filler(100))+"\nz = 1\n"), obs())
		}
	}
	bigs["C23"] = func(g *gen) {
		for i := 0; i < g.count(30); i++ {
			var b strings.Builder
			o := M{"shadow": true}
			for j, n := 0, g.n(9, 24); j < n; j++ {
				fmt.Fprintf(&b, "%s = %d\n", g.pick("k", fmt.Sprint("a", j)), j)
			}
			for j, n := 0, g.n(5, 12); j < n; j++ {
				fmt.Fprintf(&b, "[s.t%d]\nl = %d\n", j, j)
			}
			b.WriteString("[s]\n")
			steps := []Step{load(o, b.String()), op("swap"), load(o, b.String())}
			for _, what := range []string{"seclist", "sections", "keylist", "keys", "hash", "shadows", "children"} {
				st := op(g.pick("spoil", "hold"), "what", what, "s", 1, "key", "k")
				if what == "children" {
					st["s"] = 2
				}
				steps = append(steps, st)
			}
			g.add("big", append(steps, op("newkey", "s", 1, "n", "a3", "v", "x"), op("delkey", "s", 1, "n", "a2"), op("addshadow", "s", 1, "key", "k", "v", "99"),
				obs(), op("seclist"), op("swap"), obs(), op("intact"))...)
		}
	}
}
