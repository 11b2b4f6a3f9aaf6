package main

import "strings"

// Histories in which every call may follow every other one, on a document
// loaded from a text of any kind: what the other generators hold apart meets
// here.

// mixes[p] is how many of them property p gets.
var mixes = map[string]int{"C04": 400, "C05": 300, "C06": 800, "C07": 300, "C08": 300, "C10": 400, "C12": 300, "C15": 200, "C16": 200, "C19": 200,
	"C20": 200, "C23": 500}

// mixer makes the calls of one history.
type mixer struct {
	*history
	held  int
	texts []string // sources so far
	refs  bool     // values may refer to other keys
}

// oneRef leaves at most one reference in a text, so that expanding values
// cannot multiply them.
func oneRef(s string) string {
	if i := strings.Index(s, "%("); i >= 0 {
		s = s[:i+2] + strings.ReplaceAll(s[i+2:], "%(", "(")
	}
	return s
}

func (g *gen) mixText() (M, string) {
	var o M
	var s string
	switch g.r.Intn(6) {
	case 0, 1:
		o, s = g.soup(8)
		o["skip"] = true
	case 2:
		o, s = g.readOpts(5), g.from(sampleTexts)
		delete(o, "delims")
		o["skip"] = true
	default:
		o, s = g.anyText()
	}
	if strings.Contains(s, "%(") && o["py"] == true {
		delete(o, "py")
	}
	if g.oneIn(6) {
		o["nonuniq"] = true
	}
	if g.oneIn(8) {
		o["child"] = g.pick("/", "::", " ")
	}
	if g.oneIn(10) {
		o["wdelim"] = g.pick(":", "=", "->")
	}
	return o, oneRef(s)
}

func (x *mixer) val() string {
	g := x.g
	switch g.r.Intn(8) {
	case 0, 1:
		return g.from(x.vals)
	case 2:
		return enc(oneRef(g.docValue()))
	case 3:
		if x.refs {
			return g.pick("", "<") + "%(" + g.from(x.keys) + ")s" + g.pick("", ">")
		}
	case 4:
		return g.from(textsFor(g.from(typedTypes)))
	case 5:
		return g.pick("a,b", " a , b ,c", "1,2,3", "x|y", "a\\,b,c", ",", "true,false")
	case 6:
		return g.pick("line1\nline2", "", " lead", "trail ", "\"q\"", "#", "'")
	}
	return g.pick("1", "v", "two words", "true", "yes")
}

// call appends one call of any kind.
func (x *mixer) call() {
	g := x.g
	s, k, si := g.from(x.secs), g.from(x.keys), g.n(1, 5)
	switch g.r.Intn(24) {
	case 0, 1, 2, 3, 4:
		x.edit()
	case 5:
		x.hold()
	case 6, 7:
		x.put(op("newkey", "s", si, "n", k, "v", x.val()))
	case 8:
		x.put(op("setval", "s", si, "key", k, "v", x.val()))
	case 9:
		x.put(op("addshadow", "s", si, "key", k, "v", x.val()), op("shadows", "s", si, "key", k))
	case 10:
		x.put(op("addnested", "s", si, "key", k, "v", x.val()))
	case 11:
		x.put(op("string", "s", si, "key", k), op("value", "s", si, "key", k))
	case 12:
		x.put(op("strings", "s", si, "key", k, "delim", g.pick(",", "|", " ")), op("strsh", "s", si, "key", k, "delim", ","))
	case 13:
		ty := g.from(typedTypes)
		switch g.r.Intn(4) {
		case 0:
			x.put(op("get", "s", si, "key", k, "ty", ty))
		case 1:
			x.put(op("must0", "s", si, "key", k, "ty", ty))
		case 2:
			x.put(op("must", "s", si, "key", k, "ty", ty, "def", g.from(typedValues[ty])))
		case 3:
			x.put(op("must", "s", si, "key", k, "ty", "string", "def", g.pick("d", "", "a b")))
		}
	case 14:
		if g.coin() {
			x.put(op("keycom", "s", si, "key", k, "v", g.pick("note", "", "two\nlines", "; n", "#\n")))
		} else {
			x.put(op("seccom", "s", si, "v", g.pick("note", "", "two\nlines", "# n", "\n")))
		}
	case 15:
		switch g.r.Intn(3) {
		case 0:
			x.put(op("newraw", "n", s, "v", g.pick("free text", "", "a = 1\n[b]", " x\n")))
		case 1:
			x.put(op("setbody", "s", si, "v", g.pick("free text", "", "l1\nl2")))
		case 2:
			x.put(op("newbool", "s", si, "n", k))
		}
	case 16:
		x.put(g.pickStep(op("children", "s", si), op("parentkeys", "s", si), op("childsof", "n", s)))
	case 17:
		switch g.r.Intn(4) {
		case 0:
			x.held++
			x.put(op("hold", "what", g.pick("hash", "keys", "keylist", "children", "parentkeys"), "s", si))
		case 1:
			x.held++
			x.put(op("hold", "what", g.pick("nested", "shadows"), "s", si, "key", k))
		case 2:
			x.put(op("spoil", "what", g.pick("seclist", "sections")), op("spoil", "what", g.pick("hash", "keys", "keylist", "children"), "s", si))
		case 3:
			if x.held > 0 {
				x.put(op("held", "i", g.n(1, x.held)))
			}
		}
	case 18:
		if g.coin() {
			x.put(op("mapper", "v", g.pick("", "upper", "wrap")))
		} else {
			x.put(op("delsecidx", "n", s, "k", g.index()), op("secidx", "n", s, "k", g.index()))
		}
	case 19:
		x.structs(si)
	case 20:
		x.put(op("write", "g", g.format(), "indent", g.pick("", "", "  ")), obs())
	case 21:
		x.put(obs())
	case 22:
		x.put(g.pickStep(op("getsec", "n", s), op("hassec", "n", s), op("section", "n", s), op("secsby", "n", s), op("getkey", "s", si, "n", k),
			op("key", "s", si, "n", k), op("haskey", "s", si, "n", k), op("hasvalue", "s", si, "v", g.from(x.vals))))
	case 23:
		if g.oneIn(3) && len(x.texts) < 3 {
			t := oneRef(g.pick("a = late\n", "[s]\nb = late\n", "[t]\n# c\nk = 1 ; in\n", "", "[new]\nx = 1\n[s.t]\ny = 2\n"))
			x.texts = append(x.texts, t)
			x.put(op("append", "srcs", []any{textVia(g.pick("", "file"), t)}), obs())
		} else {
			x.put(op("delkey", "s", si, "n", k))
		}
	}
}

// structs maps a section or the document to a struct, or reflects one.
func (x *mixer) structs(si int) {
	g := x.g
	var fs []any
	kinds := []string{"string", "int", "bool", "slice", "float", "uint"}
	for i, n := 0, g.n(1, 4); i < n; i++ {
		f := M{"go": g.pick("A", "B", "K", "Key") + string(rune('a'+i)), "name": g.from(x.keys), "kind": g.from(kinds)}
		if f["kind"] == "slice" {
			f["elem"] = g.pick("string", "int")
			f["shadow"] = g.oneIn(3)
		}
		if f["name"] == "" || f["name"] == "-" {
			delete(f, "name")
		}
		if f["kind"] != "slice" {
			f["ptr"] = g.oneIn(4)
		}
		f["omit"] = g.oneIn(5)
		fs = append(fs, f)
	}
	if g.coin() {
		fs = append(fs, M{"go": "Sub", "name": g.pick("s", "t", "s.t", "fresh"), "kind": "struct", "ptr": g.coin(),
			"fs": []any{M{"go": "In", "name": g.pick("a", "b", "k"), "kind": "string"}}})
	}
	at := 0
	if g.coin() {
		at = si
	}
	val := v0("struct", "", (&structGen{g: g}).vals(fs, g.oneIn(3)))
	name := g.pick("map", "map", "reflect")
	st := op(name, "s", at, "typ", M{"kind": "struct", "fs": fs}, "val", val, "namer", g.pick("", "", "lower"))
	if name == "map" {
		st["strict"] = g.oneIn(4)
	}
	x.put(st)
}

// mix adds n such histories.
func (g *gen) mix(n int) {
	for i := 0; i < g.count(n); i++ {
		o, s := g.mixText()
		x := &mixer{history: &history{g: g, secs: []string{"s", "t", "s.t", "raw", "DEFAULT", "S", "s.a", "", "new"},
			keys: []string{"a", "b", "c", "k", "Key", "long key name", "flag", "e", "n", "sh", "#1", "é"},
			vals: []string{"1", "v", "two words", "", "x"}}, refs: g.oneIn(3), texts: []string{s}}
		x.put(load(o, s))
		if g.oneIn(3) {
			x.put(obs())
		}
		for j, m := 0, g.n(4, 14); j < m; j++ {
			from := len(x.steps)
			x.call()
			for _, st := range x.steps[from:] {
				// mostly about what is there
				if st["h"] == nil && st["op"] != "append" && (st["key"] != nil && !g.oneIn(6) || st["key"] == nil && g.coin()) {
					st["near"] = true
				}
			}
		}
		x.put(obs(), op("seclist"), op("hash", "s", 1), op("hash", "s", 2), op("keylist", "s", 2))
		for j := 1; j <= x.held; j++ {
			x.put(op("held", "i", j))
		}
		if g.coin() {
			x.put(op("write", "g", g.format(), "indent", g.pick("", "  ")), obs())
		}
		g.add("mix", x.steps...)
	}
}
