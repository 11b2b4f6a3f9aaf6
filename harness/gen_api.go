package main

import (
	"fmt"
	"strings"
)

func init() {
	generators["C03"] = genC03
	generators["C04"] = genC04
	generators["C05"] = genC05
	generators["C06"] = genC06
	generators["C07"] = genC07
	generators["C08"] = genC08
	generators["C10"] = genC10
	generators["C11"] = genC11
	generators["C12"] = genC12
	generators["C23"] = genC23
}

// plain key names that need no, backtick or triple quotes when saved
var docNames = []string{"a", "b", "k1", "Key", "two words", "k=x", "k:y", "é", "世界", "a-b", "a.b", "x[1]", "100%", "it's", "a#b", "c;d", "trailing\\", "-x", "back`tick", "quo\"te", "`lead", "\"both\"", "tick`"}
var docValuePieces = []string{"a", "bc", " ", "  ", "#", ";", " #", " ;", "=", ":", "\\", "é", "世", "[x]", "%(a)s", "-", "\t", ",", "1", "\\#", "\\;", "\\\\", "!"}

var oddPieces = []string{"\r", "\f", "\v", "\u00a0", "\u0085", "\x00", "\ufeff", "\xff", "\x7f", "\u3000", "\u2000", "\x1b", "a", "\"", "'", "\n", " ", "\\", "#", "="}

// an index of a section among those of its name, or one that is none
func (g *gen) index() int {
	if g.oneIn(12) {
		return -g.n(1, 3)
	}
	return g.n(0, 3)
}

func (g *gen) docValue() string {
	if g.oneIn(12) {
		return strings.TrimSuffix(strings.ReplaceAll(g.word(oddPieces, 1, 5), "\xff", g.pick("\xff", "\xc3", "\x80")), "\\")
	}
	switch g.r.Intn(10) {
	case 0:
		return ""
	case 1: // line breaks or backticks
		v := g.word(append([]string{"\n", "\n", "`", "\n\n", "\n[s]", "\n# c", "\nk = v"}, docValuePieces...), 1, 7)
		return strings.TrimSuffix(v, "\\")
	case 2:
		return g.word(docValuePieces, 0, 4) + "\\"
	case 3:
		return g.pick(" ", "  ", "\t") + g.word(docValuePieces, 0, 4) + g.pick(" ", "")
	case 4: // quotes
		return g.pick("\"a\"", "'a'", "\"", "'", "\"\"", "''", "\"a\" b", "a \"b\"", "'a' 'b'", "\"a", "a'", " \"a\" ", "\"'\"", "'\"'", "\"a\\\"b\"", "a\\\"b", "\"\"\"", "\"\"\"a", "\"\"\" b", "a\"\"\"", "\"\"\"a\"\"\"")
	}
	return g.word(docValuePieces, 1, 6)
}

// docOpts picks options under which plain documents survive saving.
func (g *gen) docOpts() M {
	o := g.subset(M{}, 5, "ignCont", "ignInline", "spaceInline", "unescDQ", "unescCS", "keepQ", "insSec", "insKey", "skip", "bool", "loose", "shadow", "dupShadow")
	if g.oneIn(5) {
		o["delims"] = g.pick("=", ":", "=:", "|", "、=")
		d := []rune(o["delims"].(string))
		o["wdelim"] = string(d[g.r.Intn(len(d))])
	}
	if g.oneIn(6) {
		o["wdelim"] = g.pick("=", ":")
		delete(o, "delims")
	}
	return o
}

func (g *gen) buildDoc(names []string, maxKeys int, value func() string) []Step {
	var steps []Step
	secs := 1
	for j, n := 0, g.n(1, maxKeys); j < n; j++ {
		if g.oneIn(4) {
			secs++
			steps = append(steps, op("newsec", "n", fmt.Sprintf("%s%d", g.pick("s", "t t", "é", "a.b", "S#", "q[", "100%"), secs)))
		}
		steps = append(steps, op("newkey", "s", secs, "n", g.from(names), "v", enc(value())))
	}
	return steps
}

func genC03(g *gen) {
	// every short value, alone, under each reading option
	chars := []string{"a", " ", "#", "\\", "=", ";", "\"", "'", "\n", "`"}
	sets := []M{{}, {"keepQ": true}, {"ignInline": true}, {"spaceInline": true}, {"unescDQ": true}, {"unescCS": true}, {"ignCont": true},
		{"unescCS": true, "ignInline": true}, {"unescDQ": true, "unescCS": true, "spaceInline": true, "keepQ": true}}
	sequences(chars, 0, 2, "", func(s string) {
		for _, o := range sets {
			g.add("values", load(o, ""), op("newkey", "s", 1, "n", "k", "v", s), op("newkey", "s", 1, "n", "z", "v", "1"),
				op("rt", "g", g.format(), "cmp", "plain"))
		}
	})
	n := 3
	if g.scale > 1 {
		n = 1
	}
	sequences(chars, 3, 3, "", g.some(n, func(s string) {
		g.add("values3", load(sets[g.r.Intn(len(sets))], ""), op("newkey", "s", 1, "n", "k", "v", s), op("newkey", "s", 1, "n", "z", "v", "1"),
			op("rt", "g", g.format(), "cmp", "plain"))
	}))
	for i := 0; i < g.count(3500); i++ {
		o := g.docOpts()
		start := ""
		if g.oneIn(3) {
			start = g.pick("x = 1\n", "[s1]\ny = 2\n", "# c\nx : `a;b`\n[s1] ; d\n")
			if o["delims"] != nil {
				start = ""
			}
		}
		names := docNames
		if o["shadow"] == true { // repeated assignments are C10's
			names = []string{"k0"}
		}
		steps := []Step{load(o, start)}
		if o["shadow"] == true {
			for j, n := 0, g.n(1, 6); j < n; j++ {
				steps = append(steps, op("newkey", "s", 1, "n", fmt.Sprint(g.from(docNames), j), "v", enc(g.docValue())))
			}
		} else {
			if start != "" {
				for j, n := 0, g.n(1, 3); j < n; j++ {
					steps = append(steps, op("newkey", "s", 1, "n", g.from(names), "v", enc(g.docValue())))
				}
			} else {
				steps = append(steps, g.buildDoc(names, 9, g.docValue)...)
			}
			if g.oneIn(3) {
				steps = append(steps, op("delkey", "s", 1, "n", g.from(names)))
			}
		}
		if g.oneIn(4) {
			com := g.pick("note", "two\nlines = 1", "# a\nb : c", "x\n[s1]\n- = y", "one\n\nthree", " lead\n tail \\", "a\n; b\n`c", "#\n=")
			if g.coin() {
				steps = append(steps, op("seccom", "s", 1, "v", com))
			} else {
				steps = append(steps, op("newkey", "s", 1, "n", "commented", "v", "1"), op("keycom", "s", 1, "key", "commented", "v", com))
			}
		}
		rt := op("rt", "g", g.format(), "cmp", "plain")
		if g.oneIn(3) {
			rt["indent"] = g.pick(" ", "\t", "    ")
		}
		if g.oneIn(4) {
			rt["chan"] = g.pick("savetoindent", "saveto", "writeto")
			delete(rt, "indent")
		}
		steps = append(steps, rt)
		if g.oneIn(3) {
			steps = append(steps, op("rt", "g", g.format(), "cmp", "plain"))
		}
		g.add("random", steps...)
	}
	// documents loaded from text
	for i := 0; i < g.count(1500); i++ {
		var b strings.Builder
		for j, n := 0, g.n(1, 10); j < n; j++ {
			switch g.r.Intn(6) {
			case 0:
				b.WriteString("[" + g.pick("s", "t", "é", "a.b", "two words", "DEFAULT") + "]")
			case 1:
				b.WriteString("`" + g.pick("a=b", "c:d", "\"q\"", "x") + "` = " + g.pick("1", "`x # y`", "\"\"\"a\nb\"\"\""))
			default:
				b.WriteString(g.pick("a", "b", "k1", "é", "two words") + g.pick(" = ", "=", ":") +
					g.pick("1", "v # c", "'q'", "\"q q\"", "`x;y`", "\"\"\"l1\nl2\"\"\"", "a \\\n  b", "", "x=y:z", "\" lead\"", "end\\\\"))
			}
			b.WriteString("\n")
		}
		g.add("loaded", load(g.subset(M{}, 6, "ignInline", "keepQ", "spaceInline", "unescCS", "insSec", "insKey"), b.String()), obs(), op("rt", "g", g.format(), "cmp", "plain"))
	}
}

func (g *gen) anyText() (M, string) {
	lines := []string{"[s]", "[t]", "a = 1", "b : two words", "c = `x # y`", "# comment", "; other", "", "d = \"\"\"l1\nl2\"\"\"", "a = again",
		"[s.t] # inline", "e = v ; inline", "`k=k` = v", "é = 世", "[DEFAULT]", "long key name = x", "f =", "g = ' q '"}
	o := g.subset(M{}, 8, "ignInline", "keepQ", "spaceInline", "unescCS", "insSec", "insKey", "ignCont")
	if g.oneIn(4) {
		o["bool"] = true
		lines = append(lines, "flag", "other flag")
	}
	if g.oneIn(4) {
		o["nested"] = true
		lines = append(lines, "n =\n  v1\n  v2", "n =\n\tx")
	}
	if g.oneIn(4) {
		o["unparse"] = []any{"raw"}
		lines = append(lines, "[raw]\nfree text\n  more # x\n[u]")
	}
	if g.oneIn(4) {
		o["shadow"] = true
		lines = append(lines, "sh = 1\nsh = 2\nsh = 1")
	}
	if g.oneIn(5) {
		lines = append(lines, "- = x", "- = y")
	}
	var b strings.Builder
	for j, n := 0, g.n(1, 12); j < n; j++ {
		b.WriteString(g.from(lines) + "\n")
	}
	return o, b.String()
}

func genC04(g *gen) {
	fixed := "k = 1\nlonger key = 2\n[s]\n`a=b` = `x;y`\nc = \"\"\"l1\nl2\"\"\"\n# note\nd = 3 ; in\n[t.u] # head\n"
	for b := 0; b < 16; b++ {
		for _, indent := range []string{"", "  "} {
			f := M{"prettySection": b&1 != 0, "prettyFormat": b&2 != 0, "prettyEqual": b&4 != 0, "defaultHeader": b&8 != 0}
			w := op("write", "g", f, "indent", indent)
			g.add("formats", load(M{}, fixed), obs(), w, obs(), op("write", "g", f, "indent", indent),
				op("write", "g", f, "indent", indent, "chan", "savetoindent"), obs(), op("rt2", "g", f, "indent", indent))
			if indent == "" {
				g.add("channels", load(M{}, fixed), op("write", "g", f, "chan", "writeto"), op("write", "g", f, "chan", "saveto"),
					op("write", "g", f), obs())
			}
		}
	}
	for i := 0; i < g.count(2200); i++ {
		o, s := g.anyText()
		steps := []Step{load(o, s)}
		edited := false
		if g.oneIn(2) {
			edited = true
			for j, n := 0, g.n(1, 4); j < n; j++ {
				switch g.r.Intn(5) {
				case 0:
					steps = append(steps, op("newkey", "s", 1, "n", g.from(docNames), "v", enc(g.docValue())))
				case 1:
					com := g.pick("note", "# note", "two\nlines", "a\n\nb", " spaced ", "\ttab", "end\n", "  ", "\n", "#", ";;", "x ")
					if g.coin() {
						steps = append(steps, op("seccom", "s", 1, "v", com))
					} else {
						steps = append(steps, op("newkey", "s", 1, "n", "zz", "v", "1"), op("keycom", "s", 1, "key", "zz", "v", com))
					}
				case 2:
					steps = append(steps, op("newsec", "n", g.pick("n1", "n2")))
				case 3:
					steps = append(steps, op("delsec", "n", g.pick("s", "t")))
				case 4:
					steps = append(steps, op("delkey", "s", 1, "n", g.pick("a", "b")))
				}
			}
		}
		f := g.format()
		indent := g.pick("", "", "  ", "\t")
		steps = append(steps, obs(), op("write", "g", f, "indent", indent), obs())
		if g.oneIn(2) {
			if indent == "" && g.coin() {
				steps = append(steps, op("write", "g", f, "chan", g.pick("writeto", "saveto")), obs())
			} else {
				steps = append(steps, op("write", "g", f, "indent", indent, "chan", "savetoindent"), obs())
			}
		}
		if g.oneIn(2) {
			steps = append(steps, op("hash", "s", 1), op("seclist"), op("keylist", "s", 1))
		}
		if g.oneIn(3) { // what was written before must not show in what is written next
			edited = true
			for j, n := 0, g.n(1, 3); j < n; j++ {
				st := g.pickStep(op("delkey", "s", g.n(1, 3), "n", "?"), op("setval", "s", g.n(1, 3), "key", "?", "v", enc(g.docValue())),
					op("newkey", "s", g.n(1, 3), "n", g.from(docNames), "v", enc(g.docValue())), op("delsec", "n", "?"), op("newsec", "n", g.pick("n1", "s")),
					op("keycom", "s", g.n(1, 3), "key", "?", "v", g.pick("", "note")))
				st["near"] = true
				steps = append(steps, st)
			}
			steps = append(steps, op("write", "g", f, "indent", indent), obs())
		}
		if g.oneIn(3) {
			steps = append(steps, op("writefail", "g", f, "indent", indent, "at", g.r.Intn(g.pickInt(2, 40, 400)), "in", g.coin()))
			if g.oneIn(3) {
				steps = append(steps, op("savefail", "g", f, "via", g.pick("", "dir", "below"), "in", g.coin()))
			}
			steps = append(steps, obs())
		}
		if !edited && o["shadow"] == nil {
			if o["nested"] != nil {
				indent = ""
			}
			if strings.Contains(s, "[DEFAULT]") {
				// the comment of a section without header would not come back as such
				f["defaultHeader"] = true
			}
			steps = append(steps, op("rt2", "g", f, "indent", indent))
		}
		g.add("random", steps...)
	}
	// loaded with every combination, saved twice
	for i := 0; i < g.count(1000); i++ {
		o, s := g.anyText()
		if o["shadow"] != nil {
			s = strings.ReplaceAll(strings.ReplaceAll(s, "#", ""), ";", "")
		}
		indent := g.pick("", "  ")
		f := g.format()
		if o["nested"] != nil {
			indent = ""
		}
		if strings.Contains(s, "[DEFAULT]") {
			f["defaultHeader"] = true
		}
		g.add("twice", load(o, s), op("rt2", "g", f, "indent", indent), obs())
	}
	g.soups(800, 12, true)
}

func genC05(g *gen) {
	lines := []string{"# c", ";d", "[s]", "a = 1", "a = 2 # in", "[s] ; in", "", "b = `q` # no", "x", "#"}
	sequences(lines, 1, 2, "\n", func(s string) { g.add("lines", load(M{"skip": true}, s), obs()) })
	n := 2
	if g.scale > 1 {
		n = 1
	}
	sequences(lines, 3, 3, "\n", g.some(n, func(s string) { g.add("lines3", load(M{"skip": true}, s), obs()) }))
	for i := 0; i < g.count(3000); i++ {
		o := g.subset(M{}, 6, "ignInline", "keepQ", "spaceInline", "unescCS", "insSec", "insKey", "ignCont", "skip", "bool", "nested", "py", "nonuniq")
		if g.oneIn(8) {
			o["unparse"] = []any{"u"}
		}
		var b strings.Builder
		for j, n := 0, g.n(1, 14); j < n; j++ {
			switch g.r.Intn(8) {
			case 0, 1, 2:
				if o["nested"] == nil && o["py"] == nil {
					b.WriteString(g.pick("", " ", "\t"))
				}
				b.WriteString(g.pick("# c", ";d", "#", "##  x ", "; é世", "#a=b", ";[s]", "# ; x"))
			case 3:
				b.WriteString("[" + g.pick("s", "t", "u", "é") + "]" + g.pick("", "", " # in", ";in", " ; a # b", " tail # x"))
			case 4:
				switch {
				case o["bool"] == true:
					b.WriteString(g.pick("flag", "flag # in", "other ; in", "'q'"))
				case g.oneIn(3):
					b.WriteString("- = " + g.pick("x", "x # in"))
				case o["nested"] == true && g.coin():
					b.WriteString("n =" + g.pick("", " # in") + "\n  x # not\n  y")
				}
			default:
				b.WriteString(g.pick("a", "b", "c", "d") + g.pick(" = ", ":") +
					g.pick("1", "v", "", "v # in", "v;in", "v ; in # more", "`q # r`", "\"q\" # in", "'s;t'", "`m\nn`", "\"\"\"m\nn\"\"\" # in", "x \\\n y # in", "-"))
			}
			b.WriteString("\n")
		}
		steps := []Step{load(o, b.String()), obs()}
		if g.oneIn(3) {
			steps = append(steps, op("key", "s", 1, "n", "zz"), op("keycom", "s", 1, "key", "zz", "v", g.pick("note", "# note", "two\nlines", "; a\n# b", "a\n\nb", " spaced ", "#", "trail\n")))
			if g.coin() {
				steps = append(steps, op("section", "n", "new"), op("newsec", "n", "new2"))
				steps = append(steps, op("obs"))
			}
		}
		if o["nonuniq"] == nil && o["unparse"] == nil && (o["nested"] == nil || o["py"] == nil) {
			steps = append(steps, op("rt", "g", g.format(), "cmp", "com"))
		} else if g.coin() {
			steps = append(steps, op("append", "srcs", []any{text(g.pick("# late\nzz = 1\n", "# late\n[s]\n", "; a\n\n# b", "[t]\nx = 1 # y\n"))}), obs())
		}
		g.add("random", steps...)
	}
	// comments given by calls
	coms := []string{"note", "# note", ";note", "two\nlines", "; a\n# b", "a\n\nb", "", "#", "é 世", "x = y", "[s]", "a\n  b", "\tt"}
	for i := 0; i < g.count(800); i++ {
		steps := []Step{load(M{}, "a = 1\n[s]\nb = 2\n# old\nc = 3\n")}
		for j, n := 0, g.n(1, 4); j < n; j++ {
			switch g.r.Intn(4) {
			case 0:
				steps = append(steps, op("keycom", "s", 1, "key", "a", "v", g.from(coms)))
			case 1:
				steps = append(steps, op("keycom", "s", 2, "key", g.pick("b", "c"), "v", g.from(coms)))
			case 2:
				steps = append(steps, op("seccom", "s", 2, "v", g.from(coms)))
			case 3:
				steps = append(steps, op("newsec", "n", "t"), op("seccom", "s", 3, "v", g.from(coms)))
			}
		}
		rt := op("rt", "g", g.format(), "cmp", "com")
		if g.oneIn(4) {
			steps = append(steps, op("seccom", "s", 1, "v", g.from(coms)))
			rt["g"].(M)["defaultHeader"] = true
		}
		if g.oneIn(4) {
			rt["indent"] = g.pick("  ", "\t")
		}
		g.add("set", append(steps, obs(), rt, obs())...)
	}
	g.soups(1000, 12, false)
}

type history struct {
	g     *gen
	steps []Step
	secs  []string // names for sections
	keys  []string
	vals  []string
	grabs []bool // handles taken: of a key?
	last  Step   // the last one
}

// hold takes a handle, or makes a call through one.
func (h *history) hold() {
	g := h.g
	if len(h.grabs) == 0 || g.oneIn(3) {
		st := op("grab", "s", h.sec())
		ofKey := g.coin()
		if ofKey {
			st["key"] = g.from(h.keys)
		}
		h.grabs = append(h.grabs, ofKey)
		h.last = st
		h.put(st)
		return
	}
	if h.last != nil && h.grabs[len(h.grabs)-1] && g.oneIn(3) { // deleted, and perhaps made again
		h.put(op("delkey", "s", h.last["s"], "n", h.last["key"]))
		if g.coin() {
			h.put(op("newkey", "s", h.last["s"], "n", h.last["key"], "v", "again"))
		}
		if g.coin() {
			h.put(op("setval", "v", g.from(h.vals)))
			h.steps[len(h.steps)-1]["h"] = len(h.grabs)
		}
		h.last = nil
		return
	}
	i := g.r.Intn(len(h.grabs))
	k, v := g.from(h.keys), g.from(h.vals)
	if h.grabs[i] && !strings.Contains(strings.Join(h.vals, ""), "%") && g.oneIn(4) {
		h.put(g.pickStep(op("must", "ty", "int", "def", "7"), op("get", "ty", "int"), op("string")))
	} else if h.grabs[i] {
		h.put(g.pickStep(op("setval", "v", v), op("setval", "v", v+"!"), op("value"), op("keycom", "v", "note"), op("shadows"),
			op("addshadow", "v", v), op("addnested", "v", v)))
	} else {
		h.put(g.pickStep(op("newkey", "n", k, "v", v), op("newkey", "n", k, "v", v), op("delkey", "n", k), op("key", "n", k), op("getkey", "n", k),
			op("haskey", "n", k), op("keylist"), op("hash"), op("keys"), op("hasvalue", "v", v), op("newbool", "n", k), op("seccom", "v", "note"),
			op("setbody", "v", "body"), op("children"), op("parentkeys")))
	}
	h.steps[len(h.steps)-1]["h"] = i + 1
}

func (h *history) sec() int { return h.g.n(1, 4) }

// editStep appends one editing or observing call.
func (h *history) edit() {
	g := h.g
	s, k, v := g.from(h.secs), g.from(h.keys), g.from(h.vals)
	si := h.sec()
	if g.oneIn(5) {
		h.hold()
		return
	}
	switch g.r.Intn(17) {
	case 0, 1:
		h.put(op("newsec", "n", s))
	case 2, 3, 4:
		h.put(op("newkey", "s", si, "n", k, "v", v))
	case 5:
		h.put(op("key", "s", si, "n", k))
	case 6, 7:
		h.put(op("delkey", "s", si, "n", k))
	case 8:
		h.put(op("delsec", "n", s))
	case 9:
		h.put(op("section", "n", s))
	case 10:
		h.put(op("getkey", "s", si, "n", k), op("haskey", "s", si, "n", k, "via", g.pick("", "Haskey")))
	case 11:
		h.put(op("getsec", "n", s), op("hassec", "n", s))
	case 12:
		h.put(op("newbool", "s", si, "n", k))
	case 13:
		h.put(op("hash", "s", si), op("keylist", "s", si), op("keys", "s", si), op("hasvalue", "s", si, "v", v))
	case 14:
		h.put(op("seclist"), op("newsecs", "ns", []string{s, g.from(h.secs)}))
	case 15:
		h.put(op("setval", "s", si, "key", k, "v", v))
	case 16:
		h.put(op("value", "s", si, "key", k), op("secsby", "n", s), op("delsecidx", "n", s, "k", g.r.Intn(2)))
	}
}
func (h *history) put(s ...Step) { h.steps = append(h.steps, s...) }

func genC06(g *gen) {
	for i := 0; i < g.count(3500); i++ {
		h := &history{g: g, secs: []string{"s", "t", "u", "DEFAULT", "", "s.t", "S", "default"}, keys: []string{"a", "b", "c", "A", "", "d"}, vals: []string{"1", "2", "", "x y"}}
		if g.oneIn(5) {
			h.keys = []string{"a", "b"}
			h.secs = []string{"s", "t"}
		}
		o := M{}
		if g.oneIn(4) {
			o = g.subset(M{}, 2, "ins", "insSec", "insKey", "bool", "loose")
		}
		h.put(load(o, g.pick("", "", "a = 1\n[s]\nb = 2\n", "[t]\na = 1\nb = 1\n[s]\n[t]\nc = 3\n", "[s]\nb\n")))
		if o["bool"] == nil && strings.Contains(h.steps[0]["srcs"].([]any)[0].(M)["t"].(string), "b\n") {
			o["bool"] = true
		}
		if g.oneIn(3) {
			h.put(op("newsec", "n", "s"), op("newsec", "n", "t"))
		}
		if g.oneIn(12) {
			h.put(op("block", "b", false))
		}
		for j, n := 0, g.n(2, 14); j < n; j++ {
			h.edit()
		}
		h.put(obs(), op("seclist"), op("hash", "s", 1), op("keylist", "s", 1), op("keys", "s", 1))
		g.add("random", h.steps...)
	}
	// defaults that become values keep the hash in step
	for i := 0; i < g.count(400); i++ {
		g.add("must", load(M{}, "a = \nb = x\n"), op("must", "s", 1, "key", g.pick("a", "b"), "ty", g.pick("int", "uint64"), "def", "7"),
			op("hash", "s", 1), op("must", "s", 1, "key", "a", "ty", "string", "def", "z"), op("delkey", "s", 1, "n", g.pick("a", "b")), op("hash", "s", 1), obs())
	}
}

func genC07(g *gen) {
	modes := []M{{"ins": true}, {"insSec": true}, {"insKey": true}, {}, {"insSec": true, "insKey": true}}
	lines := []string{"[Sec]", "[sEC]", "[DEFAULT]", "[default]", "[Default]", "Key = A", "kEY = B", "KEY = %(Other)s", "other = V", "OTHER = W", "É = 1", "é = 2", "[Sec.Child]", "[SEC.child]"}
	secs := []string{"Sec", "sec", "SEC", "DEFAULT", "default", "Default", "Sec.Child", "sec.CHILD", ""}
	keys := []string{"Key", "key", "KEY", "Other", "other", "É", "é"}
	for _, m := range modes {
		m := m
		sequences(lines[:10], 1, 2, "\n", func(s string) {
			g.add("lines", load(m, s), obs(), op("hassec", "n", g.from(secs)), op("getkey", "s", 1, "n", g.from(keys)))
		})
	}
	for i := 0; i < g.count(3500); i++ {
		m := modes[g.r.Intn(len(modes))]
		var b strings.Builder
		for j, n := 0, g.n(0, 7); j < n; j++ {
			b.WriteString(g.from(lines) + "\n")
		}
		if g.oneIn(6) {
			m2 := M{"unparse": []any{g.pick("sec", "SEC", "Sec")}}
			for k, v := range m {
				m2[k] = v
			}
			m = m2
		}
		h := &history{g: g, secs: secs, keys: keys, vals: []string{"A", "a", "%(KEY)s", "%(other)s"}}
		h.put(load(m, b.String()), obs())
		for j, n := 0, g.n(2, 10); j < n; j++ {
			if g.oneIn(5) {
				h.put(op("string", "s", g.n(1, 3), "key", g.from(keys)))
			} else {
				h.edit()
			}
		}
		if g.oneIn(3) {
			sub := []any{M{"go": "Key", "kind": "string"}, M{"go": "Gone", "name": g.from(keys), "kind": "string", "ptr": true}}
			fs := []any{M{"go": "Key", "kind": "string"}, M{"go": "Other", "name": g.pick("other", "OTHER", "É"), "kind": "string"},
				M{"go": "Sec", "name": g.pick("Sec", "sec", "SEC.child", "default"), "kind": "struct", "fs": sub, "ptr": g.coin()}}
			val := v0("struct", "", (&structGen{g: g}).vals(fs, g.coin()))
			o := g.pick("map", "map", "reflect")
			h.put(op(o, "s", 0, "typ", M{"kind": "struct", "fs": fs}, "val", val, "strict", false, "namer", g.pick("", "lower", "snack")))
		}
		h.put(obs(), op("hash", "s", 1), op("seclist"))
		if g.oneIn(3) {
			h.put(op("rt", "g", M{}, "cmp", "plain"))
			if _, raw := m["unparse"]; raw {
				h.steps = h.steps[:len(h.steps)-1]
			}
			for _, s := range h.steps { // a deleted default section comes back
				if s["op"] == "delsec" || s["op"] == "delsecidx" || s["op"] == "newbool" {
					h.steps = h.steps[:len(h.steps)-1]
					break
				}
			}
		}
		g.add("random", h.steps...)
	}
	// unparseable sections and reloads fold too
	for _, m := range modes {
		for _, n := range []string{"raw", "RAW", "Raw"} {
			o := M{"unparse": []any{"Raw"}}
			for k, v := range m {
				o[k] = v
			}
			g.add("raw", load(o, "["+n+"]\nfree text = x\n[s]\nK = V\n"), obs())
			g.add("reload", load(m, "["+n+"]\nK = V\n"), op("append", "srcs", []any{text("[raw]\nk = w\n[DEFAULT]\nA=1\n")}), obs())
		}
	}
}

func genC08(g *gen) {
	for i := 0; i < g.count(4000); i++ {
		d := "."
		o := M{}
		if g.oneIn(4) {
			d = g.pick("::", "/", ":", "--", "é")
			o["child"] = d
		}
		if g.oneIn(6) {
			o = g.subset(o, 2, "ins", "insSec", "insKey")
		}
		if g.oneIn(10) {
			o["nonuniq"] = true
		}
		nm := func(parts ...string) string { return strings.Join(parts, d) }
		all := []string{"a", nm("a", "b"), nm("a", "b", "c"), nm("a", "b", "c", "d"), nm("a", "x"), nm("ab"), nm("ab", "b"), nm("a", "", "b"), nm("", "a"), nm("a", ""), nm("A", "b"), "DEFAULT", nm("DEFAULT", "k")}
		if r := []rune(d); len(r) > 1 { // part of the delimiter is not the delimiter
			all = append(all, "a"+string(r[:1])+"b", "a"+string(r[:1]), nm("a"+string(r[:1])+"b", "c"), "a"+string(r[1:])+"b", "a."+"b")
		} else {
			all = append(all, "a:b", "a/b", "a.b", "a b")
		}
		var names []string
		for j, n := 0, g.n(1, 6); j < n; j++ {
			names = append(names, g.from(all))
		}
		keys := []string{"k", "l", "m", "K"}
		var b strings.Builder
		if g.coin() {
			b.WriteString("k = top\n")
		}
		for _, n := range names {
			b.WriteString("[" + n + "]\n")
			for _, k := range keys {
				if g.oneIn(3) {
					b.WriteString(k + " = " + g.pick("1", "2", "%(l)s", "%(m)s!") + "\n")
				}
			}
		}
		steps := []Step{load(o, b.String())}
		for j, n := 0, g.n(3, 10); j < n; j++ {
			si := g.n(1, len(names)+1)
			k := g.from(keys)
			switch g.r.Intn(12) {
			case 0, 1, 2:
				steps = append(steps, op("getkey", "s", si, "n", k))
			case 3:
				steps = append(steps, op("haskey", "s", si, "n", k, "via", g.pick("", "Haskey")), op("keylist", "s", si), op("hash", "s", si))
			case 4:
				steps = append(steps, op("key", "s", si, "n", k))
			case 5, 6:
				steps = append(steps, op("parentkeys", "s", si), op("children", "s", si))
			case 7:
				steps = append(steps, op("childsof", "n", g.from(all)))
			case 8:
				steps = append(steps, op("newkey", "s", si, "n", k, "v", "new"), obs())
			case 9:
				steps = append(steps, op("delkey", "s", si, "n", k))
			case 10:
				steps = append(steps, op("string", "s", si, "key", k))
			case 11:
				steps = append(steps, op("delsec", "n", g.from(all)), op("newsec", "n", g.from(all[:5])))
			}
		}
		steps = append(steps, obs())
		g.add("random", steps...)
	}
}

func genC10(g *gen) {
	sets := []M{{"shadow": true}, {"shadow": true, "dupShadow": true}, {}, {"dupShadow": true}}
	lines := []string{"k = 1", "k = 2", "k =", "k = 1,2", "j = x", "[s]", "k = %(j)s"}
	for _, o := range sets {
		o := o
		sequences(lines, 1, 3, "\n", func(s string) {
			g.add("lines", load(o, s), obs(), op("strsh", "s", 1, "key", "k", "delim", ","), op("addshadow", "s", 1, "key", "k", "v", "9"), op("shadows", "s", 1, "key", "k"))
		})
	}
	vals := []string{"1", "2", "3", "", "a, b", "c,d", "%(j)s", "x;y", " lead", "1", "x", "X", "x ", "1.0", "01"}
	for i := 0; i < g.count(3000); i++ {
		o := M{}
		for k, v := range sets[g.r.Intn(4)] {
			o[k] = v
		}
		if g.oneIn(3) {
			o = M{"shadow": true}
		}
		g.subset(o, 8, "insKey", "ignInline", "keepQ")
		g.subset(o, 4, "bool")
		var b strings.Builder
		for j, n := 0, g.n(0, 8); j < n; j++ {
			if g.oneIn(6) {
				b.WriteString("[s]\n")
			}
			if o["bool"] == true && g.oneIn(5) {
				b.WriteString(g.pick("k", "k2", "flag") + "\n")
				continue
			}
			b.WriteString(g.pick("k", "k", "k2", "j", "K") + " = " + g.pick("1", "2", "3", "", "a,b", "c, d", "`q;r`", "1", g.pick("true", "false", "", "1", "x", "X", "x,", "é", "É", "01")) + "\n")
		}
		steps := []Step{load(o, b.String()), obs()}
		for j, n := 0, g.n(0, 6); j < n; j++ {
			k, v, si := g.pick("k", "k2", "j"), g.from(vals), g.n(1, 2)
			switch g.r.Intn(7) {
			case 0, 1:
				steps = append(steps, op("newkey", "s", si, "n", k, "v", v))
			case 2, 3:
				steps = append(steps, op("addshadow", "s", si, "key", k, "v", v), op("shadows", "s", si, "key", k))
			case 4:
				steps = append(steps, op("strsh", "s", si, "key", k, "delim", g.pick(",", ",", " ", ";")))
			case 5:
				steps = append(steps, op("setval", "s", si, "key", k, "v", v), op("value", "s", si, "key", k))
			case 6:
				steps = append(steps, op("hash", "s", si), op("delkey", "s", si, "n", k))
			}
		}
		steps = append(steps, obs())
		if g.coin() {
			steps = append(steps, op("write", "g", M{}))
			if !strings.Contains(fmt.Sprint(steps), "setval") {
				steps = append(steps, op("rt", "g", g.format(), "cmp", "shadows"))
			}
		}
		g.add("random", steps...)
	}
}

func genC11(g *gen) {
	srcTexts := []string{"a = 1\n", "b = 2\n[s]\nc = 3\n", "[s]\nc = 4\n", "[t]\na = x\n[s]\n", "", "# note\na = 5\n", "a = 6\n[t]\nb = 1\n[u]\n",
		"[s] # head\nk = `m\nn`\n", "c = %(a)s\n", "- = x\n", "[DEFAULT]\nz = 1\n"}
	bad := []string{"no delimiter\n", "[open\n", "a = 1\n[\n", "= v\n", "k = `never\n"}
	for _, a := range srcTexts {
		for _, b := range srcTexts {
			g.add("pairs", loads(M{}, text(a), text(b)), obs(), op("reload"), obs())
			g.add("append", load(M{}, a), op("append", "srcs", []any{textVia("file", b)}), obs(), op("reload"), obs())
			g.add("appends", load(M{}, ""), op("append", "srcs", []any{text(a), text(b), text(a)}), obs(), op("append", "srcs", []any{text(b), text(a)}), obs())
			g.add("short", loads(M{"short": true}, text(a), text(b)), obs())
		}
	}
	for i := 0; i < g.count(3500); i++ {
		o := g.subset(M{}, 4, "loose", "short", "ins", "insKey", "insSec", "skip", "ignInline")
		rereadable := true
		source := func() M {
			switch g.r.Intn(12) {
			case 0, 1:
				return M{"k": "missing"}
			case 2:
				return M{"k": g.pick("denied", "denied", "badtype")}
			case 3:
				return M{"k": "fault", "t": g.pick("", "a = 1\n", "a = 1\nb = ", "[s]\nk = `m", "k = a \\\n", "# c"), "cut": []any{g.n(1, 9)}, "via": g.pick("", "data+err")}
			case 4:
				return text(g.from(bad))
			case 5:
				rereadable = false
				return textVia(g.pick("reader", "closer", "chunk"), g.from(srcTexts))
			case 6, 7:
				return textVia("file", g.from(srcTexts))
			}
			return text(g.from(srcTexts))
		}
		failing := func(s M) bool { return s["k"] != "text" && !(s["k"] == "missing" && o["loose"] == true) }
		var srcs []any
		fails := false
		for j, n := 0, g.n(1, 4); j < n; j++ {
			s := source()
			if g.oneIn(3) && failing(s) {
				s = text(g.from(srcTexts))
			}
			for _, b := range bad {
				fails = fails || s["t"] == b
			}
			fails = fails || failing(s)
			srcs = append(srcs, s)
		}
		if g.oneIn(8) { // convenience constructors
			fn := g.pick("Load", "LooseLoad", "InsensitiveLoad", "ShadowLoad")
			o = map[string]M{"Load": {}, "LooseLoad": {"loose": true}, "InsensitiveLoad": {"ins": true}, "ShadowLoad": {"shadow": true}}[fn]
			g.add("functions", Step{"op": "load", "fn": fn, "o": o, "srcs": srcs}, obs())
			continue
		}
		steps := []Step{loads(o, srcs...), obs()}
		if rereadable && !fails {
			for j, n := 0, g.n(0, 3); j < n; j++ {
				if g.coin() {
					var more []any
					isBad := false
					for x, y := 0, 1+g.r.Intn(3)*g.r.Intn(2); x < y; x++ {
						s := M{}
						for s["k"] == nil || s["via"] == "reader" || s["via"] == "closer" || s["via"] == "chunk" {
							s = source()
						}
						more = append(more, s)
						isBad = isBad || failing(s)
						for _, b := range bad {
							isBad = isBad || s["t"] == b
						}
					}
					steps = append(steps, op("append", "srcs", more))
					if isBad {
						break
					}
				} else {
					steps = append(steps, op(g.pick("reload", "again")))
				}
				steps = append(steps, obs())
			}
		}
		g.add("random", steps...)
	}
	// files that appear, change and go, or that are not files
	for i := 0; i < g.count(900); i++ {
		o := g.subset(M{}, 2, "loose")
		g.subset(o, 6, "short", "ins", "shadow")
		file := func() M {
			switch g.r.Intn(10) {
			case 0:
				return M{"k": "denied", "via": g.pick("dir", "loop", "below")}
			case 1, 2:
				return M{"k": "missing", "via": g.pick("", "dangling")}
			}
			return textVia(g.pick("file", "file", "link"), g.from(srcTexts))
		}
		fails := func(s M) bool {
			return s["k"] == "denied" || s["k"] == "missing" && o["loose"] == nil
		}
		n := g.n(1, 3)
		var srcs []any
		failing, below := false, map[int]bool{}
		for j := 0; j < n; j++ {
			s := file()
			for fails(s) && !g.oneIn(6) {
				s = file()
			}
			failing = failing || fails(s)
			srcs = append(srcs, s)
		}
		steps := []Step{loads(o, srcs...), obs()}
		for j, m := 0, g.n(1, 5); j < m && !failing; j++ {
			i := g.n(1, len(srcs))
			switch g.r.Intn(5) {
			case 0:
				s := file()
				failing = fails(s)
				srcs = append(srcs, s)
				steps = append(steps, op("append", "srcs", []any{s}))
				if !failing {
					steps = append(steps, obs())
				}
				continue
			case 1:
				if s := desc(srcs[i-1]); s["k"] == "text" {
					steps = append(steps, op("touch", "i", i, "g", g.format()))
				}
			default:
				s := file()
				for s["via"] == "below" {
					s = file()
				}
				if !below[i] {
					srcs[i-1] = s
					steps = append(steps, op("touch", "i", i, "src", s))
				}
			}
			for _, s := range srcs {
				failing = failing || fails(desc(s))
			}
			steps = append(steps, g.pickStep(op("reload"), op("reload"), op("append", "srcs", []any{text("late = 1\n")})))
			if steps[len(steps)-1]["op"] == "append" {
				srcs = append(srcs, text("late = 1\n"))
				break
			}
			if !failing {
				steps = append(steps, obs())
			}
		}
		g.add("files", steps...)
	}
	// shadows: reloading and appending change nothing that was there
	lines := []string{"a = 1", "a = 2", "b = 1,2", "[s]", "[t] # c", "# note", "a = 1", "e = `x\ny`", "f ="}
	for i := 0; i < g.count(300); i++ {
		o := M{"shadow": true}
		g.subset(o, 3, "ins", "ignInline", "skip")
		one := func() M {
			var b strings.Builder
			for j, n := 0, g.n(0, 5); j < n; j++ {
				b.WriteString(g.from(lines) + "\n")
			}
			return textVia(g.pick("", "file"), b.String())
		}
		g.add("shadows", loads(o, one(), one()), obs(), op("again"), op("append", "srcs", []any{one()}), obs(), op("again"))
	}
	// a file that appears only later, edits that a reload overrides
	for i := 0; i < g.count(300); i++ {
		a, b := g.from(srcTexts), g.from(srcTexts)
		g.add("edited", loads(M{}, text(a), textVia("file", b)), op("newkey", "s", 1, "n", g.pick("a", "zz"), "v", "edited"),
			op("newsec", "n", g.pick("s", "zs")), op("reload"), obs(), op("append", "srcs", []any{text(g.from(srcTexts))}), obs())
	}
}

func genC12(g *gen) {
	for i := 0; i < g.count(4000); i++ {
		o := M{"nonuniq": true}
		if g.oneIn(6) {
			o = M{}
		}
		if g.oneIn(5) {
			g.subset(o, 2, "ins", "insSec")
		}
		names := []string{"s", "t", "S", "DEFAULT", "u", "s.t"}
		var b strings.Builder
		for j, n := 0, g.n(0, 8); j < n; j++ {
			b.WriteString("[" + g.from(names[:3]) + "]\n")
			for x, m := 0, g.n(0, 2); x < m; x++ {
				b.WriteString(g.pick("a", "b") + " = " + fmt.Sprint(j) + "\n")
			}
		}
		steps := []Step{load(o, b.String()), obs()}
		h := &history{g: g, secs: names, keys: []string{"a", "b", "c"}, vals: []string{"0", "n"}}
		for j, n := 0, g.n(1, 9); j < n; j++ {
			nm := g.from(names)
			if g.oneIn(4) {
				h.steps = nil
				h.hold()
				steps = append(steps, h.steps...)
			}
			switch g.r.Intn(10) {
			case 0, 1:
				steps = append(steps, op("newsec", "n", nm))
			case 2, 3:
				steps = append(steps, op("delsecidx", "n", nm, "k", g.index()))
			case 4:
				steps = append(steps, op("delsec", "n", nm))
			case 5:
				steps = append(steps, op("secsby", "n", nm), op("seclist"))
			case 6:
				steps = append(steps, op("secidx", "n", nm, "k", g.index()))
			case 7:
				steps = append(steps, op("getsec", "n", nm), op("hassec", "n", nm), op("section", "n", nm))
			case 8:
				steps = append(steps, op("newkey", "s", g.n(1, 4), "n", g.pick("a", "b", "c"), "v", "n"))
			case 9:
				steps = append(steps, op("children", "s", g.n(1, 3)), op("newraw", "n", nm, "v", "body"))
			}
		}
		steps = append(steps, obs(), op("seclist"))
		if g.oneIn(3) {
			steps = append(steps, op("write", "g", g.format()), obs())
		}
		g.add("random", steps...)
	}
	// deleting every section of a name one by one, from either end
	for n := 1; n <= 5; n++ {
		for _, k := range []int{0, n - 1, n / 2} {
			s := ""
			for j := 0; j < n; j++ {
				s += fmt.Sprintf("[s]\nid = %d\n[t]\nx = %d\n", j, j)
			}
			steps := []Step{load(M{"nonuniq": true}, s)}
			for j := 0; j < n; j++ {
				at := k
				if at >= n-j {
					at = n - j - 1
				}
				steps = append(steps, op("delsecidx", "n", "s", "k", at), obs(), op("secsby", "n", "s"), op("secsby", "n", "t"))
			}
			steps = append(steps, op("newsec", "n", "s"), op("secidx", "n", "s", "k", 0), op("write", "g", M{}), obs())
			g.add("drain", steps...)
		}
	}
}

func genC23(g *gen) {
	lists := []string{"seclist", "sections", "secsby", "children", "keylist", "keys", "parentkeys", "hash", "nested", "shadows"}
	for i := 0; i < g.count(3500); i++ {
		o := g.subset(M{}, 3, "nested", "shadow", "insKey")
		if g.oneIn(3) {
			o["nonuniq"] = true
		}
		if g.oneIn(4) {
			o["unparse"] = []any{"raw"}
		}
		s := g.pick("a = 1\nb = 2\n[s]\nk = v\n[s.t]\nl = w\n", "[s]\nk = 1\nk = 2\n[s.t]\nk = 3\n[s.t.u]\nm = %(k)s\n", "a =\n  n1\n  n2\nb = x\n[s]\n[t]\n", "[raw]\nfree\n[s]\na = 1\n")
		if strings.Contains(s, "free") {
			o["unparse"] = []any{"raw"}
		}
		if strings.Contains(s, "  n1") {
			o["nested"] = true
		}
		steps := []Step{load(o, s), op("swap")}
		// the second document: the same slice or another text
		o2 := o
		if g.oneIn(3) {
			o2 = g.subset(M{"unparse": []any{"raw"}, "nested": true}, 2, "shadow", "ins")
		}
		if g.oneIn(2) {
			steps = append(steps, Step{"op": "load", "o": o2, "srcs": []any{textVia("same", s)}})
		} else {
			steps = append(steps, load(o2, s))
		}
		held := 0
		h := &history{g: g, keys: []string{"a", "k", "n"}, vals: []string{"x", "1"}}
		for j, n := 0, g.n(2, 12); j < n; j++ {
			si := g.n(1, 4)
			if g.oneIn(4) {
				h.steps = nil
				h.hold()
				steps = append(steps, h.steps...)
			}
			switch g.r.Intn(12) {
			case 0, 1:
				steps = append(steps, op("swap"))
			case 2:
				steps = append(steps, op("newkey", "s", si, "n", g.pick("a", "k", "n"), "v", g.pick("x", "y")))
			case 3:
				steps = append(steps, op("delkey", "s", si, "n", g.pick("a", "k", "b")))
			case 4:
				steps = append(steps, op("newsec", "n", g.pick("s", "z", "s.t", "s.z")))
			case 5:
				steps = append(steps, g.pickStep(op("delsec", "n", g.pick("s", "s.t", "t")), op("delsecidx", "n", g.pick("s", "s.t"), "k", 0)))
			case 6, 7, 8:
				what := g.from(lists)
				name := "spoil"
				if g.coin() {
					name = "hold"
				}
				st := op(name, "what", what)
				switch what {
				case "secsby":
					st["n"] = g.pick("s", "s.t", "t")
				case "seclist", "sections":
				case "nested", "shadows":
					st["s"], st["key"] = si, g.pick("a", "k")
				default:
					st["s"] = si
				}
				if name == "hold" {
					held++
				}
				steps = append(steps, st)
			case 9:
				if held > 0 {
					steps = append(steps, op("held", "i", g.n(1, held)))
				}
			case 10:
				steps = append(steps, op("setval", "s", si, "key", g.pick("a", "k"), "v", "changed"), op("addnested", "s", si, "key", "a", "v", "n3"), op("addshadow", "s", si, "key", "k", "v", "7"))
			case 11:
				steps = append(steps, op("reload"), op("intact"))
				if o["nonuniq"] == true || o["nested"] == true || o["unparse"] != nil || o2["nested"] == true {
					steps = steps[:len(steps)-2]
				}
			}
		}
		for j := 1; j <= held; j++ {
			steps = append(steps, op("held", "i", j))
		}
		steps = append(steps, obs(), op("seclist"), op("hash", "s", 1), op("swap"), obs(), op("seclist"), op("intact"))
		g.add("random", steps...)
	}
}

func (g *gen) pickInt(n ...int) int { return n[g.r.Intn(len(n))] }

func (g *gen) pickStep(s ...Step) Step { return s[g.r.Intn(len(s))] }
