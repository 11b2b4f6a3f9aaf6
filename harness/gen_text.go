package main

import (
	"fmt"
	"strings"
)

func init() {
	generators["C02"] = genC02
	generators["C18"] = genC18
	generators["C19"] = genC19
	generators["C20"] = genC20
	generators["C21"] = genC21
	generators["C22"] = genC22
}

var readOptNames = []string{"ins", "insSec", "insKey", "ignCont", "ignInline", "skip", "bool", "shadow",
	"nested", "py", "spaceInline", "unescDQ", "unescCS", "keepQ", "nonuniq", "dupShadow"}

// readOpts picks reading options; each is set with probability 1/n.
func (g *gen) readOpts(n int) M {
	o := g.subset(M{}, n, readOptNames...)
	if g.oneIn(4 * n) {
		o["debug"] = true
	}
	if g.oneIn(2 * n) {
		o["unparse"] = []any{g.from(secNames[:4])}
	}
	if g.oneIn(2 * n) {
		o["delims"] = g.pick("=", ":", "=:", "->", "|=")
	}
	return o
}

func genC02(g *gen) {
	chars := []string{"a", "=", "[", "]", "\"", "`", "#", "\n", " ", "\\", "-", "'"}
	each := func(n int) func(string) {
		return g.some(n, func(s string) {
			o := M{}
			if g.coin() {
				o = g.readOpts(4)
			}
			g.add("chars", load(o, s), obs())
		})
	}
	sequences(chars, 0, 3, "", func(s string) {
		g.add("chars", load(M{}, s), obs())
		g.add("chars-skip", load(M{"skip": true}, s), obs())
		g.add("chars-opts", load(g.readOpts(3), s), obs())
	})
	if g.scale > 1 {
		sequences(chars, 4, 4, "", each(1))
	} else {
		sequences(chars, 4, 4, "", each(6))
	}
	lines := []string{"[s]", "[", "[]", "[s", "[ ] x", "a=1", "b", "=v", ":", "\"a=1", "`a`", "\"\"=1", "`a=1", "k=`x", "k=\"\"\"x", "y`",
		"z\"\"\"", "", "#c", "k = v \\", "\\", " = ", "-=1", "-", "\"\"\"a\"\"\" b", "\ta = b"}
	for i := 0; i < g.count(5000); i++ {
		var b strings.Builder
		for j, n := 0, g.n(1, 7); j < n; j++ {
			b.WriteString(g.from(lines) + g.pick("\n", "\n", "\n", "\r\n"))
		}
		s := b.String()
		if g.oneIn(3) {
			s = strings.TrimRight(s, "\r\n")
		}
		o := M{}
		switch g.r.Intn(4) {
		case 0:
			o["skip"] = true
		case 1:
			o = g.readOpts(3)
		case 2:
			o = g.subset(M{}, 2, "skip", "bool")
		}
		g.add("lines", load(o, s), obs())
	}
	// arbitrary bytes
	pieces := []string{"\xff", "\xfe", "\x00", "\xc3", "\xe4\xb8", "\x80", "a", "=", "[", "]", "\n", "\r", "\"", "`", "'", "#", ";",
		" ", "\t", "\\", "%", "é", "世", "\u0085", "\u00a0", "\ufeff", "\v", "-", ":"}
	for i := 0; i < g.count(3000); i++ {
		o := g.subset(M{}, 3, "ignCont", "ignInline", "skip", "bool", "shadow", "nested", "py", "spaceInline", "unescDQ", "unescCS", "keepQ")
		g.add("bytes", load(o, g.word(pieces, 1, 24)), obs())
	}
	// skipping: the other lines load as if the bad ones were absent
	good := []string{"[s]", "a = 1", "b : two", "# c", "", "[t]", "c = `x`"}
	bad := []string{"nothing here", "= v", ": v", "word", "'", "]", "a b c", "- x"}
	for i := 0; i < g.count(800); i++ {
		var b strings.Builder
		for j, n := 0, g.n(1, 9); j < n; j++ {
			if g.coin() {
				b.WriteString(g.from(bad) + "\n")
			} else {
				b.WriteString(g.from(good) + "\n")
			}
		}
		g.add("skip", load(M{"skip": g.oneIn(5) == false}, b.String()), obs())
	}
	g.soups(1000, 8, false)
}

// genC18: values over several lines.
func genC18(g *gen) {
	alpha := []string{"a", " b", "\n", "\\", "`", "\"\"\"", " ", "\n\t", "#c", "\nk2 = v\n", "=", "\r\n"}
	for _, open := range []string{"k = `", "k = \"\"\"", "k = a", "k =", "k = a \\\n", "k = \\"} {
		open := open
		sequences(alpha, 1, 2, "", func(s string) {
			for _, o := range []M{{}, {"py": true}, {"ignCont": true}} {
				g.add("short", load(o, open+s), obs())
			}
		})
		n := 4
		if g.scale > 1 {
			n = 1
		}
		sequences(alpha, 3, 3, "", g.some(n, func(s string) {
			o := g.subset(M{}, 3, "py", "ignCont", "ignInline", "keepQ", "spaceInline")
			g.add("seq", load(o, open+s), obs())
		}))
	}
	long := func(n int) string {
		var b strings.Builder
		for b.Len() < n {
			b.WriteString(g.pick("abcdefgh ", "0123456789", "x", "the quick brown fox "))
		}
		return b.String()[:n]
	}
	for i := 0; i < g.count(2500); i++ {
		var b strings.Builder
		o := g.subset(M{}, 4, "py", "ignCont", "ignInline", "keepQ", "spaceInline", "unescDQ")
		for j, n := 0, g.n(1, 4); j < n; j++ {
			k := fmt.Sprintf("k%d", j)
			part := func() string {
				return g.pick("one", "two words", " indented", "", "x = y", "# no comment", "[no]", "é世")
			}
			body := func(max int) string {
				var l []string
				for x, m := 0, g.n(1, max); x < m; x++ {
					l = append(l, part())
				}
				return strings.Join(l, "\n")
			}
			switch g.r.Intn(5) {
			case 0:
				b.WriteString(k + " = `" + body(4) + "`" + g.pick("", "", " # c", " tail") + "\n")
			case 1:
				b.WriteString(k + " = \"\"\"" + body(4) + "\"\"\"" + g.pick("", "", " ; c") + "\n")
			case 2:
				b.WriteString(k + " = " + g.pick("one", "two words", "x # y"))
				for x, m := 0, g.n(1, 4); x < m; x++ {
					b.WriteString(g.pick(" \\", "\\", "\\ ") + "\n" + g.pick("", "  ", "\t") + g.pick("more", "and more", "x=y", "\"q\""))
				}
				b.WriteString("\n")
			case 3:
				o["py"] = true
				b.WriteString(k + " = " + g.pick("", "first"))
				for x, m := 0, g.n(0, 4); x < m; x++ {
					b.WriteString("\n" + g.pick(" ", "\t", "    ", "\f", " \t") + g.pick("more", "x = y", "  deep", "", "[no]", "# part"))
				}
				b.WriteString("\n")
			case 4:
				b.WriteString(k + " = plain\n")
			}
			if g.oneIn(4) {
				b.WriteString(g.pick("[s]\n", "\n", "# c\n"))
			}
		}
		s := b.String()
		if g.oneIn(5) {
			s = strings.TrimRight(s, "\n")
		}
		g.add("mixed", load(o, s), obs())
	}
	// values longer than any buffer
	for i := 0; i < g.count(60); i++ {
		n := 4000 + g.r.Intn(200)
		if g.oneIn(4) {
			n = 8150 + g.r.Intn(90)
		}
		var s string
		o := M{}
		switch g.r.Intn(4) {
		case 0:
			s = "a = 1\nk = `" + long(n) + "\n" + long(g.n(1, 200)) + "`\nb = 2\n"
		case 1:
			s = "a = 1\nk = \"\"\"" + long(n/2) + "\n" + long(n/2) + "\"\"\"\nb = 2\n"
		case 2:
			o["py"] = true
			s = "a = 1\nk = " + long(n/2)
			for x, m := 0, g.n(1, 5); x < m; x++ {
				s += "\n  " + long(g.n(1, n/2))
			}
			s += "\nb = 2\n"
		case 3:
			s = "a = 1\nk = " + long(n) + "x\\\n  " + long(n/4) + "y\nb = 2\n"
		}
		if g.coin() {
			o["bufsz"] = g.n(1, 9000)
		}
		g.add("long", load(o, s), obs())
	}
	g.soups(1000, 8, false)
}

// genC19: dashes, bare names, nested values.
func genC19(g *gen) {
	lines := []string{"- = a", "-: b", "[s]", "[t]", "name", "key = v", "key =", "  nested", "\tother = x", "", " ", "-=", "# c"}
	sets := []M{{}, {"bool": true}, {"nested": true}, {"bool": true, "nested": true}}
	sequences(lines, 1, 2, "\n", func(s string) {
		for _, o := range sets {
			g.add("lines", load(o, s), obs(), op("rt", "g", defaultFormat(), "cmp", "entries"))
		}
	})
	n := 3
	if g.scale > 1 {
		n = 1
	}
	sequences(lines, 3, 3, "\n", g.some(n, func(s string) {
		steps := []Step{load(sets[g.r.Intn(4)], s), obs()}
		// a name is used in one way only
		if !strings.Contains(s, "key = v") || !strings.Contains(s, "key =\n") {
			steps = append(steps, op("rt", "g", g.format(), "cmp", "entries"))
		}
		g.add("lines3", steps...)
	}))
	for i := 0; i < g.count(2500); i++ {
		o := sets[g.r.Intn(4)]
		if g.oneIn(6) {
			o = M{"bool": true, "nested": true, g.pick("ins", "ignInline", "keepQ", "ignCont"): true}
		}
		var b strings.Builder
		for j, n := 0, g.n(1, 14); j < n; j++ {
			switch g.r.Intn(9) {
			case 0, 1:
				b.WriteString("-" + g.pick(" ", "") + g.pick("=", ":") + g.pick(" ", "") + g.pick("a", "b c", "", "`q # x`", "1"))
			case 2:
				if o["bool"] == true {
					b.WriteString(g.pick("flag", "other flag", "skip-name", "été"))
				}
			case 3, 4:
				// a key either has values or nested values
				nm := g.pick("k", "k2", "é", "v1", "v2")
				if nm[0] == 'v' {
					b.WriteString(nm + " = " + g.pick("v", "w x"))
				} else {
					b.WriteString(nm + " =" + g.pick("", " "))
				}
				if o["nested"] == true && nm[0] != 'v' {
					for x, m := 0, g.n(0, 3); x < m; x++ {
						b.WriteString("\n" + g.pick("  ", "\t", "    ", " ") + g.pick("n1", "n2 = x", "[n3]", "n4:y", "n5", "%(k)s"))
					}
				}
			case 5:
				b.WriteString("[" + g.pick("s", "t", "u") + "]")
			case 6:
				b.WriteString(g.note())
			case 7:
			case 8:
				b.WriteString("k3 = v3")
			}
			b.WriteString("\n")
		}
		steps := []Step{load(o, b.String()), obs()}
		if g.oneIn(3) {
			steps = append(steps, op("write", "g", g.format(), "indent", g.pick("", "", "  ", "\t")), obs())
		}
		f := g.format()
		steps = append(steps, op("rt", "g", f, "cmp", "entries"), op("write", "g", f))
		g.add("random", steps...)
	}
	// entries created by calls
	for i := 0; i < g.count(600); i++ {
		o := M{"bool": true, "nested": true}
		steps := []Step{load(o, g.pick("", "- = a\n- = b\n", "[s]\nk =\n  x\n", "flag\n"))}
		steps = append(steps, op("section", "n", "s"))
		for j, n := 0, g.n(1, 5); j < n; j++ {
			s := 1 + g.r.Intn(2)
			switch g.r.Intn(5) {
			case 0:
				steps = append(steps, op("newbool", "s", s, "n", g.pick("flag", "f2", "k")))
			case 1:
				nm := g.pick("k", "k2")
				steps = append(steps, op("newkey", "s", s, "n", nm, "v", ""), op("addnested", "s", s, "key", nm, "v", g.pick("n1", "x = y", "z")))
			case 2:
				steps = append(steps, op("newkey", "s", s, "n", g.pick("k3", "k4"), "v", g.pick("v", "w")))
			case 3:
				nm := g.pick("flag3", "f4")
				steps = append(steps, op("newbool", "s", s, "n", nm), op("setval", "s", s, "key", nm, "v", g.pick("false", "true", "other")))
			case 4:
				nm := g.pick("k5", "k6")
				steps = append(steps, op("newbool", "s", s, "n", nm), op("addnested", "s", s, "key", nm, "v", "n"))
			}
		}
		steps = append(steps, obs(), op("rt", "g", g.format(), "cmp", "plain"))
		g.add("built", steps...)
	}
	g.soups(800, 14, true)
}

func genC20(g *gen) {
	lines := []string{"[raw]", "[s]", "[COMMENTS]", "a = 1", "  free text", "free text", "", "# c", "k", "= x", "`", "\"\"\"", "-=1", "x\\", "<html>;y"}
	o := func() M { return M{"unparse": []any{"raw", "COMMENTS"}} }
	sequences(lines, 1, 2, "\n", func(s string) {
		g.add("lines", load(o(), "[raw]\n"+s), obs())
		g.add("lines", load(o(), s), obs())
	})
	n := 3
	if g.scale > 1 {
		n = 1
	}
	sequences(lines, 3, 3, "\n", g.some(n, func(s string) { g.add("lines3", load(o(), "[raw]\n"+s), obs()) }))
	free := []string{"free text", "a = 1", "= x", "k", "  indented", "\ttab", "é 世", "`tick", "'q\"", "%(a)s", "x \\", "<1:2> / 3", "100%; # half"}
	for i := 0; i < g.count(2500); i++ {
		names := []string{"raw", "COMMENTS", "s", "t"}
		opt := o()
		if g.oneIn(4) {
			opt[g.pick("ins", "insSec")] = true
			names = append(names, "RAW", "Comments")
		}
		g.subset(opt, 6, "ignInline", "ignCont", "keepQ", "insKey")
		var b strings.Builder
		raw := false
		for j, n := 0, g.n(1, 14); j < n; j++ {
			switch g.r.Intn(6) {
			case 0:
				nm := g.from(names)
				l := strings.ToLower(nm)
				raw = nm == "raw" || nm == "COMMENTS" || (opt["ins"] == true || opt["insSec"] == true) && (l == "raw" || l == "comments")
				b.WriteString("[" + nm + "]")
			case 1:
				b.WriteString(g.pick("", g.note()))
			default:
				if raw {
					if g.oneIn(3) {
						b.WriteString(g.chars(1, 8))
					} else {
						b.WriteString(g.from(free))
					}
				} else {
					b.WriteString(g.pick("a", "b", "c") + g.pick(" = ", ":") + g.pick("1", "x", ""))
				}
			}
			b.WriteString("\n")
		}
		s := b.String()
		if g.oneIn(4) {
			s = strings.TrimRight(s, "\n")
		}
		steps := []Step{load(opt, s), obs()}
		if g.oneIn(3) {
			steps = append(steps, op("section", "n", "raw"), op("setbody", "s", 1+g.r.Intn(2), "v", g.pick("new body", "l1\nl2\n", "x = y", "", "z", "  indented\nrest\n\n", "\n lead\n", "tail  ", "\t")), obs(),
				op("write", "g", g.format()))
		}
		steps = append(steps, op("rt", "g", g.format(), "cmp", "entries"), obs())
		g.add("random", steps...)
	}
	// raw sections that get keys, or sections that become raw
	for i := 0; i < g.count(300); i++ {
		opt := o()
		steps := []Step{load(opt, g.pick("", "a = 1\n", "[s]\nb = 2\n", "[raw]\ntext\n"))}
		for j, n := 0, g.n(1, 5); j < n; j++ {
			nm := g.pick("raw", "COMMENTS", "s")
			switch g.r.Intn(4) {
			case 0:
				steps = append(steps, op("newkey", "s", g.n(1, 3), "n", g.pick("k", "j"), "v", "1"))
			case 1:
				steps = append(steps, op("newraw", "n", nm, "v", g.pick("text", "a = b\n", "")))
			case 2:
				steps = append(steps, op("section", "n", nm))
			case 3:
				steps = append(steps, Step{"op": "append", "srcs": []any{textVia("", "["+nm+"]\n"+g.pick("", "x = y\n", "z = 1\nx = 2\n# c\n"))}})
			}
		}
		g.add("mixed", append(steps, obs(), op("write", "g", g.format()), obs())...)
	}
	for i := 0; i < g.count(500); i++ {
		opt := o()
		steps := []Step{load(opt, g.pick("", "a = 1\n", "[s]\nb = 2\n"))}
		for j, n := 0, g.n(1, 3); j < n; j++ {
			if g.coin() {
				steps = append(steps, op("newraw", "n", g.pick("raw", "COMMENTS"), "v", g.pick("text", "l1\nl2", "a = b\n", "\nx\n", "free text without end", "x", "")))
			} else {
				steps = append(steps, op("newsec", "n", g.pick("s", "t")))
			}
		}
		steps = append(steps, op("setbody", "s", g.n(1, 2), "v", g.pick("changed", "c1\nc2\n", "y", "  deep\n", "y \n\n")), obs(), op("write", "g", g.format()), op("rt", "g", g.format(), "cmp", "entries"), obs())
		g.add("built", steps...)
	}
	g.soups(800, 14, true)
}

var sampleTexts = []string{
	"a = 1\n[s]\nb = two words\n# c\nk = `x\ny`\n",
	"[s]\nk = v \\\n  more\nz: 3 ; note\n",
	"k = \"\"\"a\nb\n\"\"\"\n\nx = y\n[t]\n[s]\n",
	"é = 世界\n[世]\nk = é\n",
	"a\n=\n[\n",
	"k = `never closed\n",
	"a = 1",
	"",
	"\n\n\n",
	"[s] # c\n- = 1\n- = 2\n",
	"key =\n  indented\n\tmore\nb = 2\n",
}

func genC21(g *gen) {
	vias := []string{"bytes", "file", "reader", "closer", "chunk", "dataerr", "onebyte"}
	marks := []string{"", "\ufeff", "\xff\xfe", "\xfe\xff"}
	variants := func(tag string, o M, s string) {
		for _, via := range vias {
			src := textVia(via, s)
			if via == "closer" || via == "chunk" {
				var cut []any
				for j, n := 0, g.n(1, 4); j < n; j++ {
					cut = append(cut, g.r.Intn(5))
				}
				src["cut"] = cut
			}
			o2 := M{}
			for k, v := range o {
				o2[k] = v
			}
			if g.oneIn(4) {
				o2["debug"] = true
			}
			if g.coin() {
				o2["bufsz"] = []int{1, 16, 4096, 4097, 5000, 65536}[g.r.Intn(6)]
			}
			g.add(tag, Step{"op": "load", "o": o2, "srcs": []any{src}}, obs())
		}
	}
	for _, s := range sampleTexts {
		for _, m := range marks {
			variants("sample", M{}, m+s)
			variants("sample-py", M{"py": true, "nested": true, "bool": true}, m+s)
		}
	}
	pieces := []string{"a", "b", "=", ":", "\n", "\n", "[s]", "[t]\n", "# c\n", "k = v\n", " ", "\t", "`", "\"\"\"", "\\\n", "é", "  x\n", ";", "世", "\ufeff"}
	for i := 0; i < g.count(700); i++ {
		s := g.word(pieces, 1, 20)
		if g.oneIn(3) {
			s = g.from(marks) + s
		}
		o := g.subset(M{}, 4, "py", "bool", "skip", "ignCont", "nested", "unescDQ", "ignInline")
		variants("random", o, s)
	}
	// short prefixes of a byte-order mark
	for _, s := range []string{"\xef", "\xef\xbb", "\xff", "\xfe", "\xef\xbba = 1", "\ufeff", "\ufeff\ufeffa = 1", "\xffa=1", "a\ufeff = 1", "\uff3fa = 1", "\ufefaa = 1", "\u1effa = 1", "\ufeff\uff3f = 1", "\xef\x80\xbf=1", "\xc3\xbb\xbf=1"} {
		variants("mark", M{}, s)
		variants("mark", M{"bool": true}, s)
	}
	// line ends
	single := []string{"a = 1", "b : two words", "[s]", "", "# c", "c = `q`", "d = \"q\"", "e = x # note", "[t] ; note", "-= n"}
	for i := 0; i < g.count(500); i++ {
		var lines []string
		for j, n := 0, g.n(1, 8); j < n; j++ {
			lines = append(lines, g.from(single))
		}
		for _, end := range []string{"\n", "\r\n"} {
			g.add("ends", load(M{}, strings.Join(lines, end)+g.pick("", end)), obs())
		}
	}
	// long texts around the sizes of reader buffers
	for i := 0; i < g.count(40); i++ {
		size := []int{4096, 4096, 8192, 5000}[g.r.Intn(4)]
		pad := size - 20 + g.r.Intn(40)
		var b strings.Builder
		for b.Len() < pad {
			if g.oneIn(8) || pad-b.Len() < 60 {
				b.WriteString(g.pick("#", ";") + strings.Repeat("x", g.n(1, 40)) + "\n")
			} else {
				fmt.Fprintf(&b, "k%d = %s\n", b.Len(), strings.Repeat(g.pick("v", "w "), g.n(1, 300)))
			}
		}
		s := b.String() + g.pick("last = v\n[s]\nx = y", "m = `a\nb`\n", "p = q\n  r\n")
		src := textVia(vias[g.r.Intn(len(vias))], s)
		src["cut"] = []any{g.n(1, 4097)}
		o := g.subset(M{}, 2, "py")
		if g.coin() {
			o["bufsz"] = []int{1, 4096, 4097, 5000, 65536}[g.r.Intn(5)]
		}
		g.add("long", Step{"op": "load", "o": o, "srcs": []any{src}}, obs())
	}
}

func genC22(g *gen) {
	chars := []string{"a", " ", "\"", "'", "#", ";", "\\", "`", "=", "é"}
	sets := []M{{}, {"keepQ": true}, {"ignInline": true}, {"spaceInline": true}, {"unescDQ": true}, {"unescCS": true},
		{"unescCS": true, "ignInline": true}, {"unescDQ": true, "unescCS": true, "spaceInline": true}, {"keepQ": true, "unescCS": true, "ignInline": true}, {"ignCont": true}}
	sequences(chars, 1, 3, "", func(s string) {
		g.add("chars", load(M{}, "k = "+s+"\nz = 1\n"), obs())
		g.add("chars-opts", load(sets[1+g.r.Intn(len(sets)-1)], "k = "+s+"\nz = 1\n"), obs())
		if g.scale > 1 {
			for _, o := range sets[1:] {
				g.add("chars-all", load(o, "k = "+s+"\nz = 1\n"), obs())
			}
		}
	})
	sequences(chars, 1, 2, "", func(s string) {
		for _, o := range sets {
			g.add("chars2", load(o, "k = "+s+"\nz = 1\n"), obs())
		}
	})
	n := 8
	if g.scale > 1 {
		n = 1
	}
	sequences(chars, 4, 4, "", g.some(n, func(s string) { g.add("chars4", load(sets[g.r.Intn(len(sets))], "k="+s), obs()) }))
	pieces := []string{"a", "b c", " ", "\"", "'", "#", " #", ";", " ;", "\\#", "\\;", "\\\"", "\\", "`", "\"\"\"", "=", ":", "é", "世", "\t"}
	for i := 0; i < g.count(4000); i++ {
		o := g.subset(M{}, 3, "keepQ", "ignInline", "spaceInline", "unescDQ", "unescCS", "ignCont")
		v := g.word(pieces, 1, 8)
		if g.coin() {
			q := g.pick("\"", "'", "`", "\"\"\"")
			v = q + g.word(pieces, 0, 5) + q + g.pick("", "", " # c", "; c", " tail")
		}
		g.add("random", load(o, "# before\nk = "+v+"\nz = 1\n"), obs())
	}
	// the same decoration many times in one value
	for _, e := range []string{"\\\"", "\\#", "\\;", "\"", "'", "`", "#", " #", ";", "\\", "\\\\", "\"\"\""} {
		for _, q := range []string{"", "\"", "'", "`"} {
			for n := 2; n <= 5; n++ {
				for _, o := range sets {
					g.add("repeated", load(o, "k = "+q+g.pick("", "x")+strings.Repeat(e+g.pick("y", " z ", ""), n)+q+"\nz = 1\n"), obs())
				}
			}
		}
	}
	g.soups(1000, 4, false)
}
