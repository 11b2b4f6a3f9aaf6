package main

import (
	"fmt"
	"regexp"
	"strings"
)

func init() {
	generators["C09"] = genC09
	generators["C13"] = genC13
	generators["C14"] = genC14
}

// genC09: references in values.
func genC09(g *gen) {
	frag := []string{"x", "%(a)s", "%(b)s", "%(c)s", "%(n)s", "%", "%(a)", " "}
	// every short value for a, read against fixed neighbours
	for _, rest := range []string{"b = B\nc = %(b)s\n[s]\na = %(b)s\nc = C\n[s.t]\nb = in\n", "b = %(a)s\n[s]\na = %(a)s%(b)s\nb = %(c)s\n[s.t]\na = %(a)s\n",
		"c = 1\n[s]\nn = 2\na = %(c)s%(n)s\n[s.t]\na = %(c)s\nc = %(a)s\n"} {
		rest := rest
		sequences(frag, 1, 3, "", g.some(g.thin(2), func(s string) {
			if multiplies("a = " + s + "\n" + rest) {
				if !g.oneIn(6) {
					return
				}
				g.add("endless", load(M{}, "a = "+s+"\n"+rest), op("term", "s", 1, "key", "a"), op("term", "s", 2, "key", "a"),
					op("term", "s", 3, "key", "a"), op("value", "s", 1, "key", "a"), obs())
				return
			}
			g.add("short", load(M{}, "a = "+s+"\n"+rest), op("string", "s", 1, "key", "a"), op("string", "s", 2, "key", "a"),
				op("string", "s", 3, "key", "a"), op("value", "s", 1, "key", "a"), obs())
		}))
	}
	pieces := []string{"%(a)s", "%(b)s", "%(c)s", "%(d)s", "%(nope)s", "%(a)", "%a)s", "%%(a)s", "%( a )s", "%()s", "%(A)s", "%(é)s", "(a)s",
		"%(a)ss", "%(%(a)s)s", "%(a))s", "%(", ")s", "x", "y z", "%", "$", "世", "%(a.b)s", "-"}
	for i := 0; i < g.count(5000); i++ {
		o := g.subset(M{}, 6, "ins", "insKey", "insSec", "shadow", "ignInline", "keepQ")
		if g.oneIn(8) {
			o["child"] = g.pick("/", "::")
		}
		d, _ := o["child"].(string)
		if d == "" {
			d = "."
		}
		var b strings.Builder
		names := []string{"a", "b", "c", "d", "A", "é", "a.b"}
		n := g.n(2, 9)
		used := map[string]bool{}
		for j := 0; j < n; j++ {
			if g.oneIn(3) {
				b.WriteString("[" + g.pick("s", "s"+d+"t", "s"+d+"t"+d+"u", "u", "DEFAULT") + "]\n")
				used = map[string]bool{}
			}
			k := g.from(names)
			if used[strings.ToLower(k)] {
				continue
			}
			used[strings.ToLower(k)] = true
			v := g.word(pieces, 0, 4)
			// values that multiply in every round are left to the term cases
			if strings.Count(v, "%(") > 1 && !g.oneIn(3) {
				v = g.word(pieces, 0, 2)
			}
			if strings.Count(v, "%(") > 1 && !g.oneIn(4) {
				v = g.pick("%(a)s/%(nope)s", "%(b)s%(nope)s", "%(nope)s%(a)s", "x%(d)s%(")
			}
			b.WriteString(k + " = " + v + "\n")
		}
		steps := []Step{load(o, b.String()), obs()}
		if g.oneIn(6) {
			steps = append(steps, op("mapper", "v", g.pick("upper", "wrap", "")))
		}
		for j, m := 0, g.n(2, 6); j < m; j++ {
			si, k := g.n(1, 4), g.from(names)
			switch g.r.Intn(8) {
			case 0:
				steps = append(steps, op("setval", "s", si, "key", k, "v", g.word(pieces, 0, 2)))
			case 1:
				steps = append(steps, op("newkey", "s", si, "n", k, "v", g.pick("x", "%(a)s", "%(c)s!")))
			case 2:
				steps = append(steps, op("delkey", "s", si, "n", k))
			case 3:
				steps = append(steps, op("delsec", "n", g.pick("DEFAULT", "s", "u")), op("seclist"))
			case 4:
				steps = append(steps, op("strings", "s", si, "key", k, "delim", ","))
			default:
				steps = append(steps, op("string", "s", si, "key", k), op("value", "s", si, "key", k))
			}
		}
		steps = append(steps, obs())
		if g.oneIn(4) {
			steps = append(steps, op("write", "g", M{}))
		}
		if !g.oneIn(4) {
			dropGrowth(steps)
		}
		g.add("random", steps...)
	}
	// chains around the bound on rounds
	for n := 90; n <= 108; n++ {
		var b strings.Builder
		for j := 0; j < n; j++ {
			fmt.Fprintf(&b, "k%d = %%(k%d)s\n", j, j+1)
		}
		fmt.Fprintf(&b, "k%d = end\n", n)
		g.add("chain", load(M{}, b.String()), op("string", "s", 1, "key", "k0"), op("string", "s", 1, "key", fmt.Sprintf("k%d", n/2)), op("value", "s", 1, "key", "k0"))
	}
	// chains of any length and end, here and there another reference beside
	for i := 0; i < g.count(150); i++ {
		n := g.n(1, g.pickN(6, 12, 30, 60))
		var b strings.Builder
		for j := 0; j < n; j++ {
			fmt.Fprintf(&b, "k%d = %s%%(k%d)s%s\n", j, g.pick("", "", "x", "%(e)s"), j+1, g.pick("", "", "", "y", "%(e)s", "%(f)s"))
			if g.oneIn(12) {
				b.WriteString("[" + g.pick("s", "s.t", "DEFAULT") + "]\n")
			}
		}
		fmt.Fprintf(&b, "k%d = %s\ne = %s\nf = %s\n", n, g.pick("end", "", "%(nope)s", "%(e)s", "%(k0", "100%"), g.pick("", "e"), g.pick("", "%(e)s"))
		g.add("chains", load(M{}, b.String()), op("string", "s", 1, "key", "k0"), op("string", "s", 1, "key", fmt.Sprintf("k%d", n/2)),
			op("string", "s", 2, "key", fmt.Sprintf("k%d", n/2)), op("string", "s", 3, "key", fmt.Sprintf("k%d", n)))
	}
	// trees of references that stay small
	for depth := 1; depth <= 7; depth++ {
		for width := 1; width <= 2; width++ {
			var b strings.Builder
			for j := 0; j < depth; j++ {
				fmt.Fprintf(&b, "k%d = <%s>\n", j, strings.Repeat(fmt.Sprintf("%%(k%d)s", j+1), width))
			}
			fmt.Fprintf(&b, "k%d = .\n", depth)
			g.add("tree", load(M{}, b.String()), op("string", "s", 1, "key", "k0"), obs())
		}
	}
	// cycles, and growth without end: only that reading ends is claimed
	for _, t := range []string{"a = %(a)s\n", "a = %(b)s\nb = %(a)s\n", "a = %(b)s%(b)s\nb = %(a)s%(a)s\n", "[s]\na = %(a)s%(a)s\n[DEFAULT]\na = %(b)s\nb = %(a)s\n",
		"a = %(b)s%(c)s\nb = %(c)s%(a)s\nc = %(a)s%(b)s\n", "a = x%(b)sy\nb = p%(a)sq\n", "[s]\na = %(a)sx%(a)s\n[DEFAULT]\na = %(a)s%(a)s\n"} {
		for _, k := range []string{"a", "b", "c"} {
			g.add("cycle", load(M{}, t), op("term", "s", 1, "key", k), op("term", "s", 2, "key", k), op("value", "s", 1, "key", k), obs(),
				op("write", "g", M{}))
		}
	}
	for i := 0; i < g.count(25); i++ {
		var b strings.Builder
		n := g.n(2, 6)
		for j := 0; j < n; j++ {
			fmt.Fprintf(&b, "k%d = ", j)
			for x, m := 0, g.n(1, 4); x < m; x++ {
				fmt.Fprintf(&b, "%s%%(k%d)s", g.pick("", "x", ", "), g.r.Intn(n))
			}
			b.WriteString("\n")
			if g.oneIn(5) {
				b.WriteString("[" + g.pick("s", "t", "DEFAULT") + "]\n")
			}
		}
		steps := []Step{load(M{}, b.String())}
		for j := 0; j < n; j++ {
			steps = append(steps, op("term", "s", g.n(1, 2), "key", fmt.Sprintf("k%d", j)))
		}
		g.add("grow", append(steps, obs())...)
	}
}

var refPattern = regexp.MustCompile(`%\(([^)]+)\)s`)

// multiplies tells whether expanding values of the text might double them in
// every round: some name on a cycle of references has two references in one
// value. (It only decides which histories are followed in full.)
func multiplies(text string) bool {
	refs := map[string]map[string]bool{}
	twice := map[string]bool{}
	for _, l := range strings.Split(text, "\n") {
		k, v, ok := strings.Cut(l, "=")
		if !ok {
			continue
		}
		k = strings.ToLower(strings.TrimSpace(k))
		ms := refPattern.FindAllStringSubmatch(v, -1)
		twice[k] = twice[k] || strings.Count(v, "%(") > 1
		for _, m := range ms {
			if refs[k] == nil {
				refs[k] = map[string]bool{}
			}
			refs[k][strings.ToLower(m[1])] = true
		}
	}
	for k := range refs {
		seen := map[string]bool{}
		var walk func(n string)
		walk = func(n string) {
			for m := range refs[n] {
				if !seen[m] {
					seen[m] = true
					walk(m)
				}
			}
		}
		walk(k)
		if twice[k] && seen[k] {
			return true
		}
	}
	return false
}

// dropGrowth keeps only one reference per value set in the history, so that
// the specification can follow it.
func dropGrowth(steps []Step) []Step {
	for _, s := range steps {
		if v, ok := s["v"].(string); ok && strings.Count(v, "%(") > 1 {
			s["v"] = "%(a)s"
		}
	}
	return steps
}

// thin is the fraction 1/n of an enumeration that the quick tier takes.
func (g *gen) thin(n int) int {
	if g.scale > 1 {
		return 1
	}
	return n
}

var typedTexts = map[string][]string{
	"bool": {"true", "false", "True", "TRUE", "tRUE", "yes", "Yes", "YES", "y", "Y", "n", "N", "no", "No", "on", "On", "ON", "oN", "off", "Off", "OFF", "0", "1", "2", "t", "T", "f", "F", "", "enabled", " true", "true x"},
	"int": {"0", "1", "-1", "+1", "42", "007", "010", "08", "0x1f", "0X1F", "-0x1F", "0b101", "0B2", "0o17", "0O8", "1_000", "_1", "1_", "1__0", "0_7", "0x_f", "0x", "0b", "-", "+", "", "9223372036854775807", "9223372036854775808",
		"-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0xffffffffffffffff", "1.0", "1e3", "abc", "12abc", "--1", "٣", "0x8000000000000000", "-0x8000000000000000",
		"2147483647", "2147483648", "4294967295", "4294967296", "-2147483649", "127", "128", "-129", "65536", "00", "-0", "+0x10", "0_0", "++1", "+-1", "-+1", "+_1", "0b", "0o"},
	"float": {"0", "1", "-1", "1.5", "-1.5", ".5", "5.", ".", "1e3", "1E3", "1e+3", "1e-3", "-2.5e-2", "1e", "e1", "1.2.3", "", "abc", "inf", "-inf", "+Inf", "Infinity", "nan", "NaN", "-nan", "00012.500", "123456789012345", "0.1", "1e20", "1.25e-7", "1_0", "12x", "-", "+.5", "1e2.5", "-0.0", "++1.5", "-+1", "+-1", "1e+-1"},
	"dur":   {"0", "1s", "1.5s", "90s", "1h30m", "1m", "-5s", "+5s", "100ms", "1us", "7ns", "1h1m1s1ms", ".5s", "1.s", "s", "1", "1x", "", "-", "1 s", "1S", "1m1", "1.23456789s", "9223372036854775807ns", "9223372036854775808ns", "-9223372036854775808ns", "2562047h", "2562048h", "1d", "0s", "-0", "1hm", "++5s", "+-5s", "-+5s"},
	"time": {"2024-02-29T12:30:45Z", "2023-02-29T12:30:45Z", "2024-13-01T00:00:00Z", "2024-01-32T00:00:00Z", "2024-01-01T24:00:00Z", "2024-01-01T23:60:00Z", "2024-01-01T23:59:59+02:00", "2024-01-01T23:59:59-11:30", "2024-01-01T23:59:59", "2024-01-01", "", "2024-01-01T01:02:03.5Z", "2024-01-01T01:02:03.Z", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "2024-1-1T00:00:00Z", "2024-01-01 00:00:00Z", "2024-01-01T00:00:00z", "1900-02-29T00:00:00Z", "2000-02-29T00:00:00Z", "2024-01-01T00:00:00+00:00", "2024-00-10T00:00:00Z",
		"2024-01-01T23:59:59.5Z", "2024-01-02T01:59:59.500+02:00", "2024-01-01T12:29:59-11:30", "2024-01-01T05:00:00.000000001Z", "2024-01-01T05:00:00.0000000019Z", "2024-01-01T05:00:00,5Z"},
	"date": {"2024-02-29", "2023-02-29", "2024-04-31", "2024-12-31", "2024-1-01", "2024-01-00", "", "20240101", "2024-01-01x", "0001-01-01", "1900-02-29", "2000-02-29", "x"},
}

func textsFor(ty string) []string {
	switch ty {
	case "int64", "uint", "uint64":
		return typedTexts["int"]
	case "string":
		return []string{"", "a", "b", "x y", "世", "A"}
	}
	return typedTexts[ty]
}

// values as candidates, bounds and defaults (in the form results are shown)
var typedValues = map[string][]string{
	"bool": {"true", "false"}, "string": {"", "a", "b", "dflt", "世"},
	"int":   {"0", "1", "-1", "42", "7", "8", "1000", "31", "-31", "9223372036854775807", "-9223372036854775808", "5"},
	"int64": {"0", "1", "-1", "42", "7", "8", "1000", "31", "-31", "9223372036854775807", "-9223372036854775808", "5"},
	"uint":  {"0", "1", "42", "7", "8", "1000", "31", "18446744073709551615", "9223372036854775808"}, "uint64": {"0", "1", "42", "7", "8", "1000", "31", "18446744073709551615", "9223372036854775808"},
	"float": {"0", "1", "-1", "1.5", "-1.5", "0.5", "1000", "0.001", "12.5", "0.1", "-0.025", "100000000000000000000", "3.141592653589793", "-1234567.891", "0.30000000000000004"},
	"dur":   {"0", "1500000000", "90000000000", "3600000000000", "-5000000000", "7"},
	"time": {"2024-02-29T12:30:45Z", "2024-01-01T23:59:59Z", "2020-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59Z",
		"2024-01-01T23:59:59.5Z", "2024-01-02T01:59:59+02:00", "2024-01-01T12:29:59.5-11:30", "2023-12-31T23:30:00-05:30", "2024-01-01T05:00:00.000000001Z"},
	"date": {"2024-02-29T00:00:00Z", "2024-12-31T00:00:00Z", "2020-01-01T00:00:00Z", "0001-01-01T00:00:00Z"},
}

var typedTypes = []string{"bool", "int", "int64", "uint", "uint64", "float", "dur", "time", "date"}

func genC13(g *gen) {
	one := func(ty, v string) []Step {
		steps := []Step{}
		kinds := []string{"get", "must", "must0"}
		if ty != "bool" && ty != "dur" {
			kinds = append(kinds, "in")
			if ty != "uint" && ty != "uint64" && ty != "string" && !strings.Contains(strings.ToLower(v), "n") {
				kinds = append(kinds, "range")
			}
		}
		if ty == "string" {
			kinds = []string{"must", "in", "validate"}
		}
		switch k := g.from(kinds); k {
		case "get":
			steps = append(steps, op("get", "s", 1, "key", "k", "ty", ty))
		case "must0":
			steps = append(steps, op("must0", "s", 1, "key", "k", "ty", ty))
		case "validate":
			steps = append(steps, op("validate", "s", 1, "key", "k"))
		case "must":
			steps = append(steps, op("must", "s", 1, "key", "k", "ty", ty, "def", g.from(typedValues[ty])))
		case "in":
			if v == "nan" || v == "NaN" {
				break
			}
			var c []string
			for j, n := 0, g.n(0, 4); j < n; j++ {
				c = append(c, g.from(typedValues[ty]))
			}
			if c == nil {
				c = []string{}
			}
			steps = append(steps, op("in", "s", 1, "key", "k", "ty", ty, "def", g.from(typedValues[ty]), "cands", c))
		case "range":
			lo, hi := g.from(typedValues[ty]), g.from(typedValues[ty])
			for _, x := range typedValues[ty] { // at the bounds
				if x == v && g.coin() {
					lo, hi = g.pick(lo, v), g.pick(hi, v)
				}
			}
			steps = append(steps, op("range", "s", 1, "key", "k", "ty", ty, "def", g.from(typedValues[ty]), "lo", lo, "hi", hi))
		}
		return steps
	}
	for _, ty := range append([]string{"string"}, typedTypes...) {
		for _, v := range textsFor(ty) {
			steps := []Step{load(M{}, ""), op("newkey", "s", 1, "n", "k", "v", v)}
			if ty != "string" {
				steps = append(steps, op("get", "s", 1, "key", "k", "ty", ty), op("must0", "s", 1, "key", "k", "ty", ty), op("value", "s", 1, "key", "k"))
			}
			g.add("each", append(steps, op("must", "s", 1, "key", "k", "ty", ty, "def", g.from(typedValues[ty])), obs(), op("hash", "s", 1))...)
			for r := 0; r < 4*g.scale; r++ {
				steps := append([]Step{load(M{}, ""), op("newkey", "s", 1, "n", "k", "v", v)}, one(ty, v)...)
				g.add("one", append(steps, obs())...)
			}
		}
	}
	// at the bounds of a range
	for _, ty := range []string{"int", "int64", "float", "time", "date"} {
		for _, v := range typedValues[ty] {
			text := v
			if ty == "date" {
				text = v[:10]
			}
			for b := 0; b < 4; b++ {
				lo, hi := g.from(typedValues[ty]), g.from(typedValues[ty])
				if b&1 != 0 {
					lo = v
				}
				if b&2 != 0 {
					hi = v
				}
				g.add("bounds", load(M{}, ""), op("newkey", "s", 1, "n", "k", "v", text),
					op("range", "s", 1, "key", "k", "ty", ty, "def", g.from(typedValues[ty]), "lo", lo, "hi", hi))
			}
		}
	}
	// generated numerals
	numeral := func() string {
		digits := []string{"0", "1", "2", "7", "8", "9", "a", "f", "_", "F"}
		return g.pick("", "", "", "-", "+") + g.pick("", "", "0", "0x", "0b", "0o", "0X") + g.word(digits[:g.n(2, 10)], 0, g.n(1, 20))
	}
	dec := func() string {
		s := g.pick("", "", "-", "+") + g.word([]string{"0", "1", "5", "9", "3"}, 0, 6)
		if g.coin() {
			s += "." + g.word([]string{"0", "1", "5", "9", "3"}, 0, 6)
		}
		if g.oneIn(3) {
			s += g.pick("e", "E") + g.pick("", "-", "+") + g.pick("0", "1", "3", "12", "20", "")
		}
		return s
	}
	dur := func() string {
		s := g.pick("", "", "-", "+")
		for j, n := 0, g.n(1, 4); j < n; j++ {
			s += g.pick("1", "0", "90", "1.5", ".25", "007", "1.", "1000000") + g.pick("h", "m", "s", "ms", "us", "ns", "m", "", "d")
		}
		return s
	}
	tm := func() string {
		return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s", g.n(1890, 2110), g.n(0, 13), g.n(0, 32), g.n(0, 25), g.n(0, 61), g.n(0, 60), g.pick("Z", "Z", "+01:00", "-05:30", "", "+25:00", ".5Z", ".123456789+00:00"))
	}
	for i := 0; i < g.count(4000); i++ {
		ty := g.from(typedTypes)
		v := ""
		switch ty {
		case "bool":
			v = g.from(typedTexts["bool"])
		case "float":
			v = dec()
		case "dur":
			v = dur()
		case "time":
			v = tm()
		case "date":
			v = tm()[:10]
		default:
			v = numeral()
			if g.oneIn(4) {
				v = g.from(typedValues[ty])
			}
		}
		steps := []Step{load(M{}, ""), op("newkey", "s", 1, "n", "k", "v", v)}
		if g.oneIn(5) { // through a reference
			steps = []Step{load(M{}, ""), op("newkey", "s", 1, "n", "r", "v", v), op("newkey", "s", 1, "n", "k", "v", "%(r)s")}
		}
		for j, n := 0, g.n(1, 3); j < n; j++ {
			s := one(ty, v)
			steps = append(steps, s...)
			if len(s) > 0 && s[0]["op"] == "must" {
				break
			}
		}
		g.add("numerals", append(steps, op("value", "s", 1, "key", "k"), op("hash", "s", 1))...)
	}
	// a default is stored under the key's own section, for inherited keys too
	for _, ty := range typedTypes {
		g.add("inherited", load(M{}, "[p]\nk = x\n[p.c]\nj = y\n"), op("key", "s", 3, "n", "k"), op("must", "s", 2, "key", "k", "ty", ty, "def", typedValues[ty][0]), obs(),
			op("hash", "s", 2), op("hash", "s", 3), op("write", "g", M{}))
	}
}

func genC14(g *gen) {
	for _, d := range []string{",", ", ", "::", "é", "|", " ", "ab", "、", ".", "aa"} {
		alpha := []string{d, "\\", "a", " ", "b"}
		if d == " " {
			alpha = []string{" ", "\\", "a", "\t"}
		}
		sequences(alpha, 0, 3, "", func(s string) {
			g.add("short", load(M{}, ""), op("newkey", "s", 1, "n", "k", "v", s), op("strings", "s", 1, "key", "k", "delim", d))
		})
		sequences(alpha, 4, 5, "", g.some(g.thin(12), func(s string) {
			g.add("longer", load(M{}, ""), op("newkey", "s", 1, "n", "k", "v", s), op("strings", "s", 1, "key", "k", "delim", d))
		}))
	}
	// characters of any kind, and bytes that are none, between the delimiters
	for i := 0; i < g.count(600); i++ {
		d := g.pick(",", "、", "\xff", "é", ", ", "\u00a0", "\x00", "\u3000|", "世\xff")
		v := g.word(append([]string{d, d, d, "\\" + d}, oddPieces...), 1, 8)
		g.add("odd", load(M{}, ""), op("newkey", "s", 1, "n", "k", "v", v), op("strings", "s", 1, "key", "k", "delim", d), op("strsh", "s", 1, "key", "k", "delim", d), obs())
	}
	for i := 0; i < g.count(4500); i++ {
		ty := g.from(typedTypes)
		if ty == "dur" {
			ty = "int"
		}
		d := g.pick(",", ",", ";", "|", "::", " ", "é", ", ")
		pool := textsFor(ty)
		var parts []string
		for j, n := 0, g.n(0, 6); j < n; j++ {
			p := ""
			switch g.r.Intn(6) {
			case 0:
				p = g.pick("", "x", "\\"+d, "1\\"+d+"2", "\\\\", " ", "\\n")
			case 1, 2:
				p = g.from(typedValues[ty])
			default:
				p = g.from(pool)
			}
			parts = append(parts, g.pick("", "", " ", "\t")+p+g.pick("", "", " "))
		}
		v := strings.Join(parts, d)
		if g.oneIn(8) {
			v += g.pick(d, "\\", d+d, " "+d+" ")
		}
		steps := []Step{load(g.subset(M{}, 4, "shadow"), "j = 1"+d+"2\n"), op("newkey", "s", 1, "n", "k", "v", v)}
		if g.oneIn(8) {
			steps = append(steps, op("newkey", "s", 1, "n", "r", "v", "%(k)s"+d+"%(j)s"))
			for _, m := range []string{"lenient", "valid", "strict"} {
				steps = append(steps, op("list", "s", 1, "key", "r", "ty", ty, "mode", m, "delim", d))
			}
		}
		steps = append(steps, op("strings", "s", 1, "key", "k", "delim", d))
		for _, m := range []string{"lenient", "valid", "strict"} {
			steps = append(steps, op("list", "s", 1, "key", "k", "ty", ty, "mode", m, "delim", d))
		}
		if g.oneIn(6) {
			steps = append(steps, op("strsh", "s", 1, "key", "k", "delim", d))
		}
		if g.oneIn(4) { // the lists above have been overwritten by now
			steps = append(steps, op("strings", "s", 1, "key", "k", "delim", d), op("list", "s", 1, "key", "k", "ty", ty, "mode", g.pick("lenient", "valid", "strict"), "delim", d))
		}
		g.add("typed", append(steps, op("value", "s", 1, "key", "k"))...)
	}
}
